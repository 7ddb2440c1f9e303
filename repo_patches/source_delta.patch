From 7b67a81c30f543f9f4d14968f9fb297afb6873d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:23 +0000
Subject: [PATCH 01/62] fix: Rotation::Rot with a zero axis returns identity,
 as documented

---
 orocos_kdl/src/frames.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/frames.cpp b/orocos_kdl/src/frames.cpp
index 4d478de..ac811b5 100644
--- a/orocos_kdl/src/frames.cpp
+++ b/orocos_kdl/src/frames.cpp
@@ -296,7 +296,8 @@ Rotation Rotation::Rot(const Vector& rotaxis,double angle) {
     // can be found by multiplying it with an arbitrary vector p
     // and noting that this vector is rotated.
     Vector rotvec = rotaxis;
-	rotvec.Normalize();
+	if (rotvec.Normalize() == 0.0)
+	    return Rotation::Identity();
 	return Rotation::Rot2(rotvec,angle);
 }
 
-- 
2.43.0


From 36789c986a5d5b22a805c5afcff48cb876230bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:50 +0000
Subject: [PATCH 02/62] fix: Rotation2::operator()(i,j) returned the transposed
 matrix element

---
 orocos_kdl/src/frames.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/frames.inl b/orocos_kdl/src/frames.inl
index 8349ff1..40ed5e5 100644
--- a/orocos_kdl/src/frames.inl
+++ b/orocos_kdl/src/frames.inl
@@ -861,9 +861,9 @@ IMETHOD double Rotation2::operator()(int i,int j) const {
     FRAMES_CHECKI((0<=i)&&(i<=1)&&(0<=j)&&(j<=1));
     if (i==j) return c;
     if (i==0) 
-        return s;
-    else
         return -s;
+    else
+        return s;
 }
 
 
-- 
2.43.0


From 3c4700bfe6ad5fe629d919aaf574023a25cd3c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:50 +0000
Subject: [PATCH 03/62] fix: Vector::Set2DPlane stores its result

---
 orocos_kdl/src/frames.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/frames.inl b/orocos_kdl/src/frames.inl
index 40ed5e5..d2d15e9 100644
--- a/orocos_kdl/src/frames.inl
+++ b/orocos_kdl/src/frames.inl
@@ -710,7 +710,7 @@ void Vector::Set2DPlane(const Frame& F_someframe_XY,const Vector2& v_XY)
 {
 Vector tmp_XY;
 tmp_XY.Set2DXY(v_XY);
-tmp_XY = F_someframe_XY*(tmp_XY);
+*this = F_someframe_XY*(tmp_XY);
 }
 
 
-- 
2.43.0


From 8b1fffe26a811a37db26d130f78dbacab5505f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:37 +0000
Subject: [PATCH 04/62] fix: RotationVel::RotY built the rotation about the X
 axis

---
 orocos_kdl/src/framevel.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/framevel.inl b/orocos_kdl/src/framevel.inl
index 05aceb0..f43195b 100644
--- a/orocos_kdl/src/framevel.inl
+++ b/orocos_kdl/src/framevel.inl
@@ -214,7 +214,7 @@ void RotationVel::DoRotY(const doubleVel& angle) {
     R.DoRotY(angle.t);
 }
 RotationVel RotationVel::RotY(const doubleVel& angle) {
-    return RotationVel(Rotation::RotX(angle.t),Vector(0,angle.grad,0));
+    return RotationVel(Rotation::RotY(angle.t),Vector(0,angle.grad,0));
 }
 
 void RotationVel::DoRotZ(const doubleVel& angle) {
-- 
2.43.0


From a340416651b67f83e9450ba1a2e3544ba6811fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 05/62] fix: Rall2d::operator*= used already updated value and
 derivative

---
 orocos_kdl/src/utilities/rall2d.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/utilities/rall2d.h b/orocos_kdl/src/utilities/rall2d.h
index fd6f6f9..fdd9c87 100644
--- a/orocos_kdl/src/utilities/rall2d.h
+++ b/orocos_kdl/src/utilities/rall2d.h
@@ -114,9 +114,9 @@ class Rall2d
 
         INLINE Rall2d<T,V,S>& operator *=(const Rall2d<T,V,S>& rhs)
             {
-            t *= rhs.t;
-            d  = (d*rhs.t+t*rhs.d);
             dd = (dd*rhs.t+S(2)*d*rhs.d+t*rhs.dd);
+            d  = (d*rhs.t+t*rhs.d);
+            t *= rhs.t;
             return *this;
             }
 
-- 
2.43.0


From 184b7735b3cb351f3a6864fe5d1051aa84a5a6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 06/62] fix: abs of a dual number could not be instantiated

---
 orocos_kdl/src/utilities/rall1d.h | 4 ++--
 orocos_kdl/src/utilities/rall2d.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/orocos_kdl/src/utilities/rall1d.h b/orocos_kdl/src/utilities/rall1d.h
index 812c69f..b2546ab 100644
--- a/orocos_kdl/src/utilities/rall1d.h
+++ b/orocos_kdl/src/utilities/rall1d.h
@@ -409,8 +409,8 @@ template <class T,class V,class S>
 INLINE  Rall1d<T,V,S> abs(const Rall1d<T,V,S>& x)
 {
     T v;
-    v=(Sign(x));
-    return Rall1d<T,V,S>(v*x,v*x.grad);
+    v=(sign(x.t));
+    return Rall1d<T,V,S>(v*x.t,v*x.grad);
 }
 
 
diff --git a/orocos_kdl/src/utilities/rall2d.h b/orocos_kdl/src/utilities/rall2d.h
index fdd9c87..4561802 100644
--- a/orocos_kdl/src/utilities/rall2d.h
+++ b/orocos_kdl/src/utilities/rall2d.h
@@ -464,8 +464,8 @@ INLINE  Rall2d<T,V,S> atan2(const Rall2d<T,V,S>& y,const Rall2d<T,V,S>& x)
 template <class T,class V,class S>
 INLINE  Rall2d<T,V,S> abs(const Rall2d<T,V,S>& x)
 {
-    T v(Sign(x));
-    return Rall2d<T,V,S>(v*x,v*x.d,v*x.dd);
+    T v(sign(x.t));
+    return Rall2d<T,V,S>(v*x.t,v*x.d,v*x.dd);
 }
 
 template <class T,class V,class S>
-- 
2.43.0


From 394a1a87718bdf4a6528be03b6eb009aede5b2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 07/62] fix: self-assignment and self-addition of a Chain

---
 orocos_kdl/src/chain.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chain.cpp b/orocos_kdl/src/chain.cpp
index 43eb4f1..667fe5d 100644
--- a/orocos_kdl/src/chain.cpp
+++ b/orocos_kdl/src/chain.cpp
@@ -41,6 +41,8 @@ namespace KDL {
 
     Chain& Chain::operator=(const Chain& arg)
     {
+        if(this==&arg)
+            return *this;
         nrOfJoints=0;
         nrOfSegments=0;
         segments.resize(0);
@@ -60,7 +62,8 @@ namespace KDL {
 
     void Chain::addChain(const Chain& chain)
     {
-        for(unsigned int i=0;i<chain.getNrOfSegments();i++)
+        const unsigned int nr=chain.getNrOfSegments(); // chain can be *this
+        for(unsigned int i=0;i<nr;i++)
             this->addSegment(chain.getSegment(i));
     }
 
-- 
2.43.0


From 91362b872f652981a6ea70b7ca1ad34375b8c86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:00 +0000
Subject: [PATCH 08/62] fix: Chain::addSegment read a segment of the chain
 itself after it moved

---
 orocos_kdl/src/chain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chain.cpp b/orocos_kdl/src/chain.cpp
index 667fe5d..1792744 100644
--- a/orocos_kdl/src/chain.cpp
+++ b/orocos_kdl/src/chain.cpp
@@ -56,7 +56,7 @@ namespace KDL {
     {
         segments.push_back(segment);
         nrOfSegments++;
-        if(segment.getJoint().getType()!=Joint::Fixed)
+        if(segments.back().getJoint().getType()!=Joint::Fixed) // segment can be an element of segments
             nrOfJoints++;
     }
 
-- 
2.43.0


From 328e83b5b40cffef3ebc1a74915ce7d19c03f32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:50 +0000
Subject: [PATCH 09/62] fix: ChainJntToJacDotSolver with locked joints wrote
 outside the result and refused its twist form

---
 orocos_kdl/src/chainjnttojacdotsolver.cpp | 30 +++++++++++++++--------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/orocos_kdl/src/chainjnttojacdotsolver.cpp b/orocos_kdl/src/chainjnttojacdotsolver.cpp
index 9bb7e11..00e1042 100644
--- a/orocos_kdl/src/chainjnttojacdotsolver.cpp
+++ b/orocos_kdl/src/chainjnttojacdotsolver.cpp
@@ -48,7 +48,6 @@ void ChainJntToJacDotSolver::updateInternalDataStructures() {
     this->setLockedJoints(locked_joints_);
     jac_solver_.updateInternalDataStructures();
     jac_.resize(chain.getNrOfJoints());
-    jac_dot_.resize(chain.getNrOfJoints());
     fk_solver_.updateInternalDataStructures();
 }
 
@@ -58,7 +57,12 @@ int ChainJntToJacDotSolver::JntToJacDot(const JntArrayVel& q_in, Twist& jac_dot_
     if (error != E_NOERROR) {
         return error;
     }
-    MultiplyJacobian(jac_dot_,q_in.qdot,jac_dot_q_dot);
+    SetToZero(jac_dot_q_dot);
+    int column=0;
+    for(unsigned int j=0;j<locked_joints_.size();++j) {
+        if(!locked_joints_[j])
+            jac_dot_q_dot += jac_dot_.getColumn(column++) * q_in.qdot(j);
+    }
     return (error = E_NOERROR);
 }
 
@@ -103,19 +107,24 @@ int ChainJntToJacDotSolver::JntToJacDot(const JntArrayVel& q_in, Jacobian& jdot,
 
     // Let's compute Jdot in the corresponding representation
     int k=0;
+    int column=0;
     for(unsigned int i=0;i<segmentNr;++i)
     {
         //Only increase joint nr if the segment has a joint
         if(chain.getSegment(i).getJoint().getType()!=Joint::Fixed) {
 
-            for(unsigned int j=0;j<chain.getNrOfJoints();++j)
-            {
-                // Column J is the sum of all partial derivatives  ref (41)
-                if(!locked_joints_[j])
-                    jac_dot_k_ += getPartialDerivative(jac_,j,k,representation_) * q_in.qdot(j);
+            //Locked joints have no column
+            if(!locked_joints_[k]) {
+                SetToZero(jac_dot_k_);
+                for(unsigned int j=0;j<chain.getNrOfJoints();++j)
+                {
+                    // Column J is the sum of all partial derivatives  ref (41)
+                    if(!locked_joints_[j])
+                        jac_dot_k_ += getPartialDerivative(jac_,j,k,representation_) * q_in.qdot(j);
+                }
+                jdot.setColumn(column++,jac_dot_k_);
             }
-            jdot.setColumn(k++,jac_dot_k_);
-            SetToZero(jac_dot_k_);
+            k++;
         }
     }
 
@@ -227,13 +236,14 @@ void ChainJntToJacDotSolver::setRepresentation(const int& representation)
 int ChainJntToJacDotSolver::setLockedJoints(const std::vector<bool>& locked_joints)
 {
     if(locked_joints.size()!=locked_joints_.size())
-        return E_SIZE_MISMATCH;
+        return (error = E_SIZE_MISMATCH);
     locked_joints_=locked_joints;
     nr_of_unlocked_joints_=0;
     for(unsigned int i=0;i<locked_joints_.size();i++){
         if(!locked_joints_[i])
             nr_of_unlocked_joints_++;
     }
+    jac_dot_.resize(nr_of_unlocked_joints_);
 
     return (error = E_NOERROR);
 }
-- 
2.43.0


From 0c4c35e45e1c2d450c991097808c25aade3e5bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:44 +0000
Subject: [PATCH 10/62] fix: in-place products and quotients of
 JntArrayVel/JntArrayAcc with dual factors overwrote operands

---
 orocos_kdl/src/jntarrayacc.cpp | 44 +++++++++++-----------------------
 orocos_kdl/src/jntarrayvel.cpp | 10 ++++----
 2 files changed, 18 insertions(+), 36 deletions(-)

diff --git a/orocos_kdl/src/jntarrayacc.cpp b/orocos_kdl/src/jntarrayacc.cpp
index 2d0949a..fe2c968 100644
--- a/orocos_kdl/src/jntarrayacc.cpp
+++ b/orocos_kdl/src/jntarrayacc.cpp
@@ -109,24 +109,16 @@ namespace KDL
     }
     void Multiply(const JntArrayAcc& src,const doubleVel& factor,JntArrayAcc& dest)
     {
-        Multiply(src.qdot,factor.grad*2,dest.qdot);
-        Multiply(src.qdotdot,factor.t,dest.qdotdot);
-        Add(dest.qdot,dest.qdotdot,dest.qdotdot);
-        Multiply(src.q,factor.grad,dest.q);
-        Multiply(src.qdot,factor.t,dest.qdot);
-        Add(dest.qdot,dest.q,dest.qdot);
+        // dest can be src: the lower orders of src are needed for the higher orders of dest
+        dest.qdotdot.data=factor.t*src.qdotdot.data+(2*factor.grad)*src.qdot.data;
+        dest.qdot.data=factor.t*src.qdot.data+factor.grad*src.q.data;
         Multiply(src.q,factor.t,dest.q);
     }
     void Multiply(const JntArrayAcc& src,const doubleAcc& factor,JntArrayAcc& dest)
     {
-        Multiply(src.q,factor.dd,dest.q);
-        Multiply(src.qdot,factor.d*2,dest.qdot);
-        Multiply(src.qdotdot,factor.t,dest.qdotdot);
-        Add(dest.qdotdot,dest.qdot,dest.qdotdot);
-        Add(dest.qdotdot,dest.q,dest.qdotdot);
-        Multiply(src.q,factor.d,dest.q);
-        Multiply(src.qdot,factor.t,dest.qdot);
-        Add(dest.qdot,dest.q,dest.qdot);
+        // dest can be src: the lower orders of src are needed for the higher orders of dest
+        dest.qdotdot.data=factor.t*src.qdotdot.data+(2*factor.d)*src.qdot.data+factor.dd*src.q.data;
+        dest.qdot.data=factor.t*src.qdot.data+factor.d*src.q.data;
         Multiply(src.q,factor.t,dest.q);
     }
 
@@ -138,26 +130,18 @@ namespace KDL
     }
     void Divide(const JntArrayAcc& src,const doubleVel& factor,JntArrayAcc& dest)
     {
-        Multiply(src.q,(2*factor.grad*factor.grad)/(factor.t*factor.t*factor.t),dest.q);
-        Multiply(src.qdot,(2*factor.grad)/(factor.t*factor.t),dest.qdot);
-        Divide(src.qdotdot,factor.t,dest.qdotdot);
-        Subtract(dest.qdotdot,dest.qdot,dest.qdotdot);
-        Add(dest.qdotdot,dest.q,dest.qdotdot);
-        Multiply(src.q,factor.grad/(factor.t*factor.t),dest.q);
-        Divide(src.qdot,factor.t,dest.qdot);
-        Subtract(dest.qdot,dest.q,dest.qdot);
+        // dest can be src: the lower orders of src are needed for the higher orders of dest
+        dest.qdotdot.data=src.qdotdot.data/factor.t-((2*factor.grad)/(factor.t*factor.t))*src.qdot.data
+            +((2*factor.grad*factor.grad)/(factor.t*factor.t*factor.t))*src.q.data;
+        dest.qdot.data=src.qdot.data/factor.t-(factor.grad/(factor.t*factor.t))*src.q.data;
         Divide(src.q,factor.t,dest.q);
     }
     void Divide(const JntArrayAcc& src,const doubleAcc& factor,JntArrayAcc& dest)
     {
-        Multiply(src.q,(2*factor.d*factor.d)/(factor.t*factor.t*factor.t)-factor.dd/(factor.t*factor.t),dest.q);
-        Multiply(src.qdot,(2*factor.d)/(factor.t*factor.t),dest.qdot);
-        Divide(src.qdotdot,factor.t,dest.qdotdot);
-        Subtract(dest.qdotdot,dest.qdot,dest.qdotdot);
-        Add(dest.qdotdot,dest.q,dest.qdotdot);
-        Multiply(src.q,factor.d/(factor.t*factor.t),dest.q);
-        Divide(src.qdot,factor.t,dest.qdot);
-        Subtract(dest.qdot,dest.q,dest.qdot);
+        // dest can be src: the lower orders of src are needed for the higher orders of dest
+        dest.qdotdot.data=src.qdotdot.data/factor.t-((2*factor.d)/(factor.t*factor.t))*src.qdot.data
+            +((2*factor.d*factor.d)/(factor.t*factor.t*factor.t)-factor.dd/(factor.t*factor.t))*src.q.data;
+        dest.qdot.data=src.qdot.data/factor.t-(factor.d/(factor.t*factor.t))*src.q.data;
         Divide(src.q,factor.t,dest.q);
     }
 
diff --git a/orocos_kdl/src/jntarrayvel.cpp b/orocos_kdl/src/jntarrayvel.cpp
index 2a14250..94c55cc 100644
--- a/orocos_kdl/src/jntarrayvel.cpp
+++ b/orocos_kdl/src/jntarrayvel.cpp
@@ -83,9 +83,8 @@ namespace KDL
     }
     void Multiply(const JntArrayVel& src,const doubleVel& factor,JntArrayVel& dest)
     {
-        Multiply(src.q,factor.grad,dest.q);
-        Multiply(src.qdot,factor.t,dest.qdot);
-        Add(dest.qdot,dest.q,dest.qdot);
+        // dest can be src: src.q is still needed when dest.qdot is computed
+        dest.qdot.data=factor.t*src.qdot.data+factor.grad*src.q.data;
         Multiply(src.q,factor.t,dest.q);
     }
 
@@ -96,9 +95,8 @@ namespace KDL
     }
     void Divide(const JntArrayVel& src,const doubleVel& factor,JntArrayVel& dest)
     {
-        Multiply(src.q,(factor.grad/factor.t/factor.t),dest.q);
-        Divide(src.qdot,factor.t,dest.qdot);
-        Subtract(dest.qdot,dest.q,dest.qdot);
+        // dest can be src: src.q is still needed when dest.qdot is computed
+        dest.qdot.data=src.qdot.data/factor.t-(factor.grad/factor.t/factor.t)*src.q.data;
         Divide(src.q,factor.t,dest.q);
     }
 
-- 
2.43.0


From 9f46ca060eb86bc435afbbaeffbadf5aced648f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:59 +0000
Subject: [PATCH 11/62] fix: ArticulatedBodyInertia plus/minus RigidBodyInertia
 was declared but defined with swapped operands

---
 orocos_kdl/src/articulatedbodyinertia.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/orocos_kdl/src/articulatedbodyinertia.cpp b/orocos_kdl/src/articulatedbodyinertia.cpp
index 709096d..2d0167c 100644
--- a/orocos_kdl/src/articulatedbodyinertia.cpp
+++ b/orocos_kdl/src/articulatedbodyinertia.cpp
@@ -54,15 +54,15 @@ namespace KDL{
         return ArticulatedBodyInertia(Ia.M+Ib.M,Ia.H+Ib.H,Ia.I+Ib.I);
     }
 
-    ArticulatedBodyInertia operator+(const RigidBodyInertia& Ia, const ArticulatedBodyInertia& Ib){
-        return ArticulatedBodyInertia(Ia)+Ib;
+    ArticulatedBodyInertia operator+(const ArticulatedBodyInertia& Ia, const RigidBodyInertia& Ib){
+        return Ia+ArticulatedBodyInertia(Ib);
     }
     ArticulatedBodyInertia operator-(const ArticulatedBodyInertia& Ia, const ArticulatedBodyInertia& Ib){
         return ArticulatedBodyInertia(Ia.M-Ib.M,Ia.H-Ib.H,Ia.I-Ib.I);
     }
 
-    ArticulatedBodyInertia operator-(const RigidBodyInertia& Ia, const ArticulatedBodyInertia& Ib){
-        return ArticulatedBodyInertia(Ia)-Ib;
+    ArticulatedBodyInertia operator-(const ArticulatedBodyInertia& Ia, const RigidBodyInertia& Ib){
+        return Ia-ArticulatedBodyInertia(Ib);
     }
     
     Wrench operator*(const ArticulatedBodyInertia& I,const Twist& t){
-- 
2.43.0


From f5c4b316a298316289e1492e1d9f1dd76c5f9ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:46 +0000
Subject: [PATCH 12/62] fix: RK4Integrator used the velocities of the wrong
 stages for the position increment

---
 orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp b/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
index 6e01c49..41947b3 100644
--- a/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
+++ b/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
@@ -109,16 +109,16 @@ namespace KDL{
         for (unsigned int i=0; i<nj; ++i)
         {
             q_temp(i) = q(i) + q_dot_temp(i)*dt/2.0;
-            q_dot_temp(i) = q_dot(i) + q_dotdot(i)*dt/2.0;
             dq(i) += 2.0*q_dot_temp(i);
+            q_dot_temp(i) = q_dot(i) + q_dotdot(i)*dt/2.0;
             dq_dot(i) += 2.0*q_dotdot(i);
         }
         fdsolver.CartToJnt(q_temp, q_dot_temp, torques, f_ext, q_dotdot);
         for (unsigned int i=0; i<nj; ++i)
         {
             q_temp(i) = q(i) + q_dot_temp(i)*dt;
-            q_dot_temp(i) = q_dot(i) + q_dotdot(i)*dt;
             dq(i) += 2.0*q_dot_temp(i);
+            q_dot_temp(i) = q_dot(i) + q_dotdot(i)*dt;
             dq_dot(i) += 2.0*q_dotdot(i);
         }
         fdsolver.CartToJnt(q_temp, q_dot_temp, torques, f_ext, q_dotdot);
-- 
2.43.0


From 6d94974680440cb5a15fd2ba38cebc4218402f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:46 +0000
Subject: [PATCH 13/62] fix: ChainFdSolver_RNE::updateInternalDataStructures
 did not update its sub-solvers and work matrices

---
 .../src/chainfdsolver_recursive_newton_euler.cpp       | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp b/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
index 41947b3..82e69e6 100644
--- a/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
+++ b/orocos_kdl/src/chainfdsolver_recursive_newton_euler.cpp
@@ -46,6 +46,16 @@ namespace KDL{
     void ChainFdSolver_RNE::updateInternalDataStructures() {
         nj = chain.getNrOfJoints();
         ns = chain.getNrOfSegments();
+        DynSolver.updateInternalDataStructures();
+        IdSolver.updateInternalDataStructures();
+        H.resize(nj);
+        Tzeroacc.resize(nj);
+        H_eig.resize(nj,nj);
+        Tzeroacc_eig.resize(nj);
+        L_eig.resize(nj,nj);
+        D_eig.resize(nj);
+        r_eig.resize(nj);
+        acc_eig.resize(nj);
     }
 
     int ChainFdSolver_RNE::CartToJnt(const JntArray &q, const JntArray &q_dot, const JntArray &torques, const Wrenches& f_ext, JntArray &q_dotdot)
-- 
2.43.0


From 146f169210b2966e1080d133b750c183da807425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:01 +0000
Subject: [PATCH 14/62] fix: svd_eigen_Macie kept stale or uninitialised
 factors when no rotation was needed, did not terminate for zero columns and
 lost directions at singular matrices

---
 orocos_kdl/src/utilities/svd_eigen_Macie.cpp | 87 +++++++++++++-------
 1 file changed, 56 insertions(+), 31 deletions(-)

diff --git a/orocos_kdl/src/utilities/svd_eigen_Macie.cpp b/orocos_kdl/src/utilities/svd_eigen_Macie.cpp
index c0fce47..2a45ce5 100644
--- a/orocos_kdl/src/utilities/svd_eigen_Macie.cpp
+++ b/orocos_kdl/src/utilities/svd_eigen_Macie.cpp
@@ -22,6 +22,30 @@
 #include "svd_eigen_Macie.hpp"
 
 namespace KDL{
+    // Columns that small consist of roundoff only and have no meaningful direction
+    static void dropRoundoff(Eigen::VectorXd& S)
+    {
+        const double smallest=1e-15*S.maxCoeff();
+        for(int i=0;i<S.rows();i++)
+            if(S(i)<=smallest)
+                S(i)=0;
+    }
+
+    // Replaces the zero columns of a matrix whose other columns are orthonormal, such that all of them are.
+    static void completeBasis(Eigen::MatrixXd& M)
+    {
+        for(int i=0;i<M.cols();i++){
+            if(!M.col(i).isZero(0))
+                continue;
+            // the axis farthest from the span of the other columns, made orthogonal to them
+            Eigen::MatrixXd::Index k;
+            M.rowwise().squaredNorm().minCoeff(&k);
+            Eigen::VectorXd column=-(M*M.row(k).transpose());
+            column(k)+=1.0;
+            M.col(i)=column/sqrt(column.dot(column));
+        }
+    }
+
     int svd_eigen_Macie(const Eigen::MatrixXd& A,Eigen::MatrixXd& U,Eigen::VectorXd& S, Eigen::MatrixXd& V,
                         Eigen::MatrixXd& B, Eigen::VectorXd& tempi,
                         double threshold,bool toggle)
@@ -29,7 +53,9 @@ namespace KDL{
         bool rotate = true;
         unsigned int sweeps=0;
         unsigned int rotations=0;
-        if(toggle){
+        // the rows of U'*A span the rows of A only if U is square and orthonormal, see below
+        const bool square = A.rows()==A.cols();
+        if(toggle || !square){
             //Calculate B from new A and previous V
             B=A.lazyProduct(V);
             while(rotate){
@@ -45,8 +71,8 @@ namespace KDL{
                         double q=qi-qj;
                         double alpha = pow(p,2.0)/(qi*qj);
                         //if columns are orthogonal with precision
-                        //threshold, don't perform rotation and continue
-                        if(alpha<threshold)
+                        //threshold, or one is zero, don't perform rotation and continue
+                        if(!(alpha>=threshold))
                             continue;
                         rotations++;
                         double c = sqrt(4*pow(p,2.0)+pow(q,2.0));
@@ -75,23 +101,21 @@ namespace KDL{
                         rotate=true;
                     }
                 }
-                //Only calculate new U and S if there were any rotations
-                if(rotations!=0){
-                    for(unsigned int i=0;i<U.rows();i++) {
-                        if(i<B.cols()){
-                            double si=sqrt(B.col(i).dot(B.col(i)));
-                            if(si==0)
-                                U.col(i) = B.col(i);
-                            else
-                                U.col(i) = B.col(i)/si;
-                            S(i)=si;
-                        }
-                        else
-                            U.col(i) = 0*tempi;
-                    }
+                if(rotations!=0)
                     sweeps++;
-                }
             }
+            //Calculate new U and S, also if A needs no rotation
+            for(unsigned int i=0;i<B.cols();i++)
+                S(i)=sqrt(B.col(i).dot(B.col(i)));
+            dropRoundoff(S);
+            for(unsigned int i=0;i<U.rows();i++) {
+                if(i<B.cols() && S(i)!=0)
+                    U.col(i) = B.col(i)/S(i);
+                else
+                    U.col(i).setZero();
+            }
+            if(square)
+                completeBasis(U);
             return sweeps;
         }else{
             //Calculate B from new A and previous U'
@@ -110,9 +134,9 @@ namespace KDL{
                         double q=qi-qj;
                         double alpha = pow(p,2.0)/(qi*qj);
                         //if columns are orthogonal with precision
-                        //threshold, don't perform rotation and
+                        //threshold, or one is zero, don't perform rotation and
                         //continue
-                        if(alpha<threshold)
+                        if(!(alpha>=threshold))
                             continue;
                         rotations++;
                         double c = sqrt(4*pow(p,2.0)+pow(q,2.0));
@@ -143,19 +167,20 @@ namespace KDL{
                     }
                 }
 
-                //Only calculate new U and S if there were any rotations
-                if(rotations!=0){
-                    for(unsigned int i=0;i<V.rows();i++) {
-                        double si=sqrt(B.row(i).dot(B.row(i)));
-                        if(si==0)
-                            V.col(i) = B.row(i);
-                        else
-                            V.col(i) = B.row(i)/si;
-                        S(i)=si;
-                    }
+                if(rotations!=0)
                     sweeps++;
-                }
             }
+            //Calculate new V and S, also if A needs no rotation
+            for(unsigned int i=0;i<V.rows();i++)
+                S(i)=sqrt(B.row(i).dot(B.row(i)));
+            dropRoundoff(S);
+            for(unsigned int i=0;i<V.rows();i++) {
+                if(S(i)!=0)
+                    V.col(i) = B.row(i)/S(i);
+                else
+                    V.col(i).setZero();
+            }
+            completeBasis(V);
             return sweeps;
         }
     }
-- 
2.43.0


From 457c63c22aac237e3ce9dc7f5a1b9895413180df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:01 +0000
Subject: [PATCH 15/62] fix:
 ChainIkSolverVel_pinv_givens::updateInternalDataStructures left U and V
 non-orthonormal

---
 orocos_kdl/src/chainiksolvervel_pinv_givens.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_pinv_givens.cpp b/orocos_kdl/src/chainiksolvervel_pinv_givens.cpp
index fbf102b..a4ea088 100644
--- a/orocos_kdl/src/chainiksolvervel_pinv_givens.cpp
+++ b/orocos_kdl/src/chainiksolvervel_pinv_givens.cpp
@@ -53,8 +53,9 @@ namespace KDL
         m = static_cast<unsigned int>(max(6,nj));
         n = static_cast<unsigned int>(min(6,nj));
         jac_eigen.conservativeResize(m,n);
-        U.conservativeResizeLike(Eigen::MatrixXd::Identity(m,m));
-        V.conservativeResizeLike(Eigen::MatrixXd::Identity(n,n));
+        // orthonormal, whatever part of the old matrices would be kept
+        U=Eigen::MatrixXd::Identity(m,m);
+        V=Eigen::MatrixXd::Identity(n,n);
         B.conservativeResize(m,n);
         S.conservativeResize(n);
         tempi.conservativeResize(m);
-- 
2.43.0


From bcc8a3d2d87ca6cf9d6cad173dbc3ef2f55b3655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:01 +0000
Subject: [PATCH 16/62] fix: the SVD routines took a bidiagonal entry of
 -2*anorm for zero (misplaced parenthesis) and kept the norm in a bool

---
 orocos_kdl/src/utilities/svd_HH.cpp       | 9 +++++----
 orocos_kdl/src/utilities/svd_eigen_HH.cpp | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/orocos_kdl/src/utilities/svd_HH.cpp b/orocos_kdl/src/utilities/svd_HH.cpp
index b82467c..33e76ab 100644
--- a/orocos_kdl/src/utilities/svd_HH.cpp
+++ b/orocos_kdl/src/utilities/svd_HH.cpp
@@ -66,7 +66,8 @@ namespace KDL
 
         int i(-1),its(-1),j(-1),jj(-1),k(-1),nm=0;
         int ppi(0);
-        bool flag,maxarg1,maxarg2;
+        bool flag;
+        double maxarg1,maxarg2;
         double anorm(0),c(0),f(0),h(0),s(0),scale(0),x(0),y(0),z(0),g(0);
 
         for(i=0;i<rows;i++)
@@ -172,12 +173,12 @@ namespace KDL
             for (its=1;its<=maxiter;its++) {  /* Loop over allowed iterations. */
                 flag=true;
                 for (ppi=k;ppi>=0;ppi--) {  /* Test for splitting. */
-                    nm=ppi-1;             /* Note that tmp[1] is always zero. */
-                    if ((fabs(tmp(ppi))+anorm) == anorm) {
+                    nm=ppi-1;             /* Note that tmp(0) is always zero. */
+                    if (ppi == 0 || (fabs(tmp(ppi))+anorm) == anorm) {
                         flag=false;
                         break;
                     }
-                    if ((fabs(w(nm)+anorm) == anorm)) break;
+                    if ((fabs(w(nm))+anorm) == anorm) break;
                 }
                 if (flag) {
                     c=0.0;           /* Cancellation of tmp[l], if l>1: */
diff --git a/orocos_kdl/src/utilities/svd_eigen_HH.cpp b/orocos_kdl/src/utilities/svd_eigen_HH.cpp
index 7c7bd37..fd2848a 100644
--- a/orocos_kdl/src/utilities/svd_eigen_HH.cpp
+++ b/orocos_kdl/src/utilities/svd_eigen_HH.cpp
@@ -34,7 +34,8 @@ namespace KDL{
 
         int i(-1),its(-1),j(-1),jj(-1),k(-1),nm=0;
         int ppi(0);
-        bool flag,maxarg1,maxarg2;
+        bool flag;
+        double maxarg1,maxarg2;
         double anorm(0),c(0),f(0),h(0),s(0),scale(0),x(0),y(0),z(0),g(0);
 
         /* Householder reduction to bidiagonal form. */
@@ -139,12 +140,12 @@ namespace KDL{
             for (its=1;its<=maxiter;its++) {  /* Loop over allowed iterations. */
                 flag=true;
                 for (ppi=k;ppi>=0;ppi--) {  /* Test for splitting. */
-                    nm=ppi-1;             /* Note that tmp[1] is always zero. */
-                    if ((fabs(tmp(ppi))+anorm) == anorm) {
+                    nm=ppi-1;             /* Note that tmp(0) is always zero. */
+                    if (ppi == 0 || (fabs(tmp(ppi))+anorm) == anorm) {
                         flag=false;
                         break;
                     }
-                    if ((fabs(S(nm)+anorm) == anorm)) break;
+                    if ((fabs(S(nm))+anorm) == anorm) break;
                 }
                 if (flag) {
                     c=0.0;           /* Cancellation of tmp[l], if l>1: */
-- 
2.43.0


From 04280f8c088e0faf90da2140c524a54e051800fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:46 +0000
Subject: [PATCH 17/62] fix: the SVD routines reported success after running
 out of iterations

---
 orocos_kdl/src/utilities/svd_HH.cpp       | 6 ++++--
 orocos_kdl/src/utilities/svd_eigen_HH.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/orocos_kdl/src/utilities/svd_HH.cpp b/orocos_kdl/src/utilities/svd_HH.cpp
index 33e76ab..56823e7 100644
--- a/orocos_kdl/src/utilities/svd_HH.cpp
+++ b/orocos_kdl/src/utilities/svd_HH.cpp
@@ -66,7 +66,7 @@ namespace KDL
 
         int i(-1),its(-1),j(-1),jj(-1),k(-1),nm=0;
         int ppi(0);
-        bool flag;
+        bool flag,converged=true;
         double maxarg1,maxarg2;
         double anorm(0),c(0),f(0),h(0),s(0),scale(0),x(0),y(0),z(0),g(0);
 
@@ -262,8 +262,10 @@ namespace KDL
                 tmp(k)=f;
                 w(k)=x;
             }
+            if (its > maxiter)
+                converged=false;
         }
-        if (its == maxiter)
+        if (!converged)
             return (-2);
         else
             return (0);
diff --git a/orocos_kdl/src/utilities/svd_eigen_HH.cpp b/orocos_kdl/src/utilities/svd_eigen_HH.cpp
index fd2848a..1dfbf25 100644
--- a/orocos_kdl/src/utilities/svd_eigen_HH.cpp
+++ b/orocos_kdl/src/utilities/svd_eigen_HH.cpp
@@ -34,7 +34,7 @@ namespace KDL{
 
         int i(-1),its(-1),j(-1),jj(-1),k(-1),nm=0;
         int ppi(0);
-        bool flag;
+        bool flag,converged=true;
         double maxarg1,maxarg2;
         double anorm(0),c(0),f(0),h(0),s(0),scale(0),x(0),y(0),z(0),g(0);
 
@@ -235,6 +235,8 @@ namespace KDL{
                 tmp(k)=f;
                 S(k)=x;
             }
+            if (its > maxiter)
+                converged=false;
         }
 
         //Sort eigen values:
@@ -261,7 +263,7 @@ namespace KDL{
             }
         }
         
-        if (its == maxiter) 
+        if (!converged)
             return (-2);
         else 
             return (0);
-- 
2.43.0


From ea6b059b8e6c9bf9ff53e3e9b10b1d8ed04dadf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:48 +0000
Subject: [PATCH 18/62] fix: report a singular pseudo inverse for chains of
 fewer than six joints

columns()-rows() is unsigned and wrapped around for fewer than six joints, so
dropped singular directions were never reported.
---
 orocos_kdl/src/chainiksolvervel_pinv.cpp | 2 +-
 orocos_kdl/src/chainiksolvervel_wdls.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_pinv.cpp b/orocos_kdl/src/chainiksolvervel_pinv.cpp
index 4ecc0cc..f80373f 100644
--- a/orocos_kdl/src/chainiksolvervel_pinv.cpp
+++ b/orocos_kdl/src/chainiksolvervel_pinv.cpp
@@ -122,7 +122,7 @@ namespace KDL
 
         // Note if the solution is singular, i.e. if number of near zero
         // singular values is greater than the full rank of jac
-        if ( nrZeroSigmas > (jac.columns()-jac.rows()) ) {
+        if ( nrZeroSigmas > (jac.columns() > jac.rows() ? jac.columns()-jac.rows() : 0) ) {
             return (error = E_CONVERGE_PINV_SINGULAR);   // converged but pinv singular
         } else {
             return (error = E_NOERROR);                 // have converged
diff --git a/orocos_kdl/src/chainiksolvervel_wdls.cpp b/orocos_kdl/src/chainiksolvervel_wdls.cpp
index a2f37ae..511d9ea 100644
--- a/orocos_kdl/src/chainiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/chainiksolvervel_wdls.cpp
@@ -208,7 +208,7 @@ namespace KDL
 
         // If number of near zero singular values is greater than the full rank
         // of jac, then wdls is active
-        if ( nrZeroSigmas > (jac.columns()-jac.rows()) ) {
+        if ( nrZeroSigmas > (jac.columns() > jac.rows() ? jac.columns()-jac.rows() : 0) ) {
             return (error = E_CONVERGE_PINV_SINGULAR);  // converged but pinv singular
         } else {
             return (error = E_NOERROR);                 // have converged
-- 
2.43.0


From 3ff34721335a11acd3fd09f414bb1413b65a22cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:48 +0000
Subject: [PATCH 19/62] fix: wdls solver with fewer than six joints or a zero
 singular value

The 6x6 corner of U is out of bounds for fewer than six joints, and an exactly
zero singular value without damping (the default) gave NaN.
---
 orocos_kdl/src/chainiksolvervel_wdls.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_wdls.cpp b/orocos_kdl/src/chainiksolvervel_wdls.cpp
index 511d9ea..6755224 100644
--- a/orocos_kdl/src/chainiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/chainiksolvervel_wdls.cpp
@@ -21,6 +21,7 @@
 
 #include "chainiksolvervel_wdls.hpp"
 #include "utilities/svd_eigen_HH.hpp"
+#include <algorithm>
 
 namespace KDL
 {
@@ -151,7 +152,8 @@ namespace KDL
         }
 
         //Pre-multiply U and V by the task space and joint space weighting matrix respectively
-        tmp_ts = weight_ts.lazyProduct(U.topLeftCorner(6,6));
+        const unsigned int nu = std::min<unsigned int>(6, nj);
+        tmp_ts.leftCols(nu) = weight_ts.lazyProduct(U.leftCols(nu));
         tmp_js = weight_js.lazyProduct(V);
 
         // Minimum of six largest singular values of J is S(5) if number of joints >=6 and 0 for <6
@@ -181,7 +183,9 @@ namespace KDL
             if(fabs(S(i))<eps) {
                 if (i<6) {
                     // Scale lambda to size of singular value sigmaMin
-                    tmp(i) = sum*((S(i)/(S(i)*S(i)+lambda_scaled*lambda_scaled)));
+                    // (a zero singular value without damping has a zero pseudo inverse)
+                    const double denominator = S(i)*S(i)+lambda_scaled*lambda_scaled;
+                    tmp(i) = denominator == 0.0 ? 0.0 : sum*(S(i)/denominator);
                 }
                 else {
                     tmp(i)=0.0;  // S(i)=0 for i>=6 due to cols>rows
-- 
2.43.0


From 97c6f08ea536bf723d46534efbe59d9e8701f275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:48 +0000
Subject: [PATCH 20/62] fix: wdls solver accepted weights of the wrong shape
 and returned an unset error

---
 orocos_kdl/src/chainiksolvervel_wdls.cpp | 4 ++--
 orocos_kdl/src/chainiksolvervel_wdls.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_wdls.cpp b/orocos_kdl/src/chainiksolvervel_wdls.cpp
index 6755224..b8d14b9 100644
--- a/orocos_kdl/src/chainiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/chainiksolvervel_wdls.cpp
@@ -78,14 +78,14 @@ namespace KDL
         if(nj != chain.getNrOfJoints())
             return (error = E_NOT_UP_TO_DATE);
 
-        if (Mq.size() != weight_js.size())
+        if (Mq.rows() != weight_js.rows() || Mq.cols() != weight_js.cols())
             return (error = E_SIZE_MISMATCH);
         weight_js = Mq;
         return (error = E_NOERROR);
     }
     
     int ChainIkSolverVel_wdls::setWeightTS(const Eigen::MatrixXd& Mx){
-        if (Mx.size() != weight_ts.size())
+        if (Mx.rows() != weight_ts.rows() || Mx.cols() != weight_ts.cols())
             return (error = E_SIZE_MISMATCH);
         weight_ts = Mx;
         return (error = E_NOERROR);
diff --git a/orocos_kdl/src/chainiksolvervel_wdls.hpp b/orocos_kdl/src/chainiksolvervel_wdls.hpp
index dbba19b..006f004 100644
--- a/orocos_kdl/src/chainiksolvervel_wdls.hpp
+++ b/orocos_kdl/src/chainiksolvervel_wdls.hpp
@@ -102,7 +102,7 @@ namespace KDL
          * not (yet) implemented.
          *
          */
-        virtual int CartToJnt(const JntArray& /*q_init*/, const FrameVel& /*v_in*/, JntArrayVel& /*q_out*/){return -1;};
+        virtual int CartToJnt(const JntArray& /*q_init*/, const FrameVel& /*v_in*/, JntArrayVel& /*q_out*/){return (error = E_NOT_IMPLEMENTED);};
 
         /**
          * Set the joint space weighting matrix
-- 
2.43.0


From 5085615efae7b3ceeaba8bf3da26b47ddebb684f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:48 +0000
Subject: [PATCH 21/62] fix: pinv_nso solver wrote outside its buffer for fewer
 than six joints

---
 orocos_kdl/src/chainiksolvervel_pinv_nso.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp b/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
index 1b04795..7d0b43d 100644
--- a/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
+++ b/orocos_kdl/src/chainiksolvervel_pinv_nso.cpp
@@ -113,11 +113,12 @@ namespace KDL
         for (i = 0; i < nj; ++i) {
             Sinv(i) = fabs(S(i))<eps ? 0.0 : 1.0/S(i);
         }
+        Eigen::Matrix<double,6,1> v;
         for (i = 0; i < 6; ++i) {
-            tmp(i) = v_in(i);
+            v(i) = v_in(i);
         }
 
-        qdot_out.data = V * Sinv.asDiagonal() * U.transpose() * tmp.head(6);
+        qdot_out.data = V * Sinv.asDiagonal() * U.transpose() * v;
 
         // Now onto NULL space
         // Given the cost function g, and the current joints q, desired joints qd, and weights w:
-- 
2.43.0


From b8b411971567f8d689caf9619d9db594a672b255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:12 +0000
Subject: [PATCH 22/62] fix: trapezoidal profile with a zero or negative
 requested duration

A negative duration was taken over and a zero duration for a zero distance gave
NaN; the fastest profile is used for durations that are too short.
---
 orocos_kdl/src/velocityprofile_trap.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/velocityprofile_trap.cpp b/orocos_kdl/src/velocityprofile_trap.cpp
index 1bee674..bc20d08 100644
--- a/orocos_kdl/src/velocityprofile_trap.cpp
+++ b/orocos_kdl/src/velocityprofile_trap.cpp
@@ -94,9 +94,9 @@ void VelocityProfile_Trap::SetProfileDuration(
 	// Fastest :
 	SetProfile(pos1,pos2);
 	// Must be Slower  :
-	double factor = duration/newduration;
-	if (factor > 1)
+	if (newduration <= duration)
 		return; // do not exceed max
+	double factor = duration/newduration;
 	a2*=factor;
 	a3*=factor*factor;
 	b2*=factor;
-- 
2.43.0


From c99d8523c1d9703b8a6fe8c7865f63d8f3b66411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:12 +0000
Subject: [PATCH 23/62] fix: half trapezoidal profile for short distances, no
 distance and short durations

Prolonging a profile whose maximum velocity is not reachable exceeded the maximum
acceleration, equal start and goal gave NaN, and a negative duration was taken over.
---
 orocos_kdl/src/velocityprofile_traphalf.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/orocos_kdl/src/velocityprofile_traphalf.cpp b/orocos_kdl/src/velocityprofile_traphalf.cpp
index 05ff180..c660700 100644
--- a/orocos_kdl/src/velocityprofile_traphalf.cpp
+++ b/orocos_kdl/src/velocityprofile_traphalf.cpp
@@ -48,6 +48,11 @@ namespace KDL {
 
 
 VelocityProfile_TrapHalf::VelocityProfile_TrapHalf(double _maxvel,double _maxacc,bool _starting):
+		  a1(0), a2(0), a3(0),
+		  b1(0), b2(0), b3(0),
+		  c1(0), c2(0), c3(0),
+		  duration(0), t1(0), t2(0),
+		  startpos(0), endpos(0),
 		  maxvel(_maxvel),maxacc(_maxacc),starting(_starting) {}
 
 void VelocityProfile_TrapHalf::SetMax(double _maxvel,double _maxacc, bool _starting)
@@ -85,7 +90,7 @@ void VelocityProfile_TrapHalf::SetProfile(double pos1,double pos2) {
 	double s        = sign(endpos-startpos);
 	// check that the maxvel is obtainable
 	double vel = std::min(maxvel, sqrt(2.0*s*(endpos-startpos)*maxacc));
-	duration		= s*(endpos-startpos)/vel+vel/maxacc/2.0;
+	duration		= (vel == 0) ? 0 : s*(endpos-startpos)/vel+vel/maxacc/2.0;
 	if (starting) {
 		t1 = 0;
 		t2 = vel/maxacc;
@@ -101,15 +106,18 @@ void VelocityProfile_TrapHalf::SetProfileDuration(
 	double pos1,double pos2,double newduration)
 {
 	SetProfile(pos1,pos2);
-	double factor = duration/newduration;
 
-	if ( factor > 1 )
+	if ( newduration <= duration )
 		return;
 
-	double s        = sign(endpos-startpos);
-	double tmp      = 2.0*s*(endpos-startpos)/maxvel;
-	double v        = s*maxvel;
 	duration        = newduration;
+	if ( endpos == startpos )
+		return; // no motion
+	double s        = sign(endpos-startpos);
+	// maximum velocity that can be reached within maxacc, as in SetProfile
+	double vel      = std::min(maxvel, sqrt(2.0*s*(endpos-startpos)*maxacc));
+	double tmp      = 2.0*s*(endpos-startpos)/vel;
+	double v        = s*vel;
 	if (starting) {
 		if (tmp > duration) {
 			t1 = 0;
-- 
2.43.0


From 35b0be57abcef0c37bfae44a0ac9b8add392c0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:37 +0000
Subject: [PATCH 24/62] fix: rectangular profile for moves backwards and zero
 or negative durations

---
 orocos_kdl/src/velocityprofile_rect.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/velocityprofile_rect.cpp b/orocos_kdl/src/velocityprofile_rect.cpp
index 7992c1e..a7c6791 100644
--- a/orocos_kdl/src/velocityprofile_rect.cpp
+++ b/orocos_kdl/src/velocityprofile_rect.cpp
@@ -81,8 +81,8 @@ void VelocityProfile_Rectangular::
     if ( diff != 0 )
         {
             v    = diff/duration;
-            if (v > maxvel || duration==0 ) // safety.
-                v=maxvel;
+            if (duration <= 0 || v > maxvel || v < -maxvel) // safety.
+                v=(diff>0)?maxvel:-maxvel;
             p    = pos1;               // start pos
             d    = diff/v;
         }
-- 
2.43.0


From b6be566196d9c09d06d6b221fbc8460eae8f1b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:33 +0000
Subject: [PATCH 25/62] fix: clone of a circular path kept neither its plane
 nor its angle

---
 orocos_kdl/src/path_circle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/path_circle.cpp b/orocos_kdl/src/path_circle.cpp
index 53261e8..aefdb30 100644
--- a/orocos_kdl/src/path_circle.cpp
+++ b/orocos_kdl/src/path_circle.cpp
@@ -141,9 +141,9 @@ Path* Path_Circle::Clone() {
 	return new Path_Circle(
 		Pos(0),
 		F_base_center.p,
-		F_base_center.M.UnitY(),
+		F_base_center.p + F_base_center.M.UnitY(),
 		orient->Pos(pathlength*scalerot),
-		pathlength*scalelin/radius/deg2rad,
+		pathlength*scalelin/radius,
 		orient->Clone(),
 		eqradius,
         aggregate
-- 
2.43.0


From 44a5c33bc4099bdcb6f2f8f189322ea09001fc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:33 +0000
Subject: [PATCH 26/62] fix: written circular path names a point in its plane,
 not a direction

---
 orocos_kdl/src/path_circle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/path_circle.cpp b/orocos_kdl/src/path_circle.cpp
index aefdb30..be69f3a 100644
--- a/orocos_kdl/src/path_circle.cpp
+++ b/orocos_kdl/src/path_circle.cpp
@@ -159,7 +159,7 @@ void Path_Circle::Write(std::ostream& os) {
 	os << "CIRCLE[ ";
 	os << "  " << Pos(0) << std::endl;
 	os << "  " << F_base_center.p << std::endl;
-	os << "  " << F_base_center.M.UnitY() << std::endl;
+	os << "  " << F_base_center.p + F_base_center.M.UnitY() << std::endl;
 	os << "  " << orient->Pos(pathlength*scalerot) << std::endl;
 	os << "  " << pathlength*scalelin/radius/deg2rad << std::endl;
 	os << "  ";orient->Write(os);
-- 
2.43.0


From 29f12154f4703b8f301f2ef60385f42a13adb63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:33 +0000
Subject: [PATCH 27/62] fix: composite path answer on a segment boundary
 depended on earlier queries

---
 orocos_kdl/src/path_composite.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/path_composite.cpp b/orocos_kdl/src/path_composite.cpp
index c93f5a2..10dc974 100644
--- a/orocos_kdl/src/path_composite.cpp
+++ b/orocos_kdl/src/path_composite.cpp
@@ -56,7 +56,7 @@ double Path_Composite::Lookup(double s) const
 {
 	assert(s>=-1e-12);
 	assert(s<=pathlength+1e-12);
-	if ( (cached_starts <=s) && ( s <= cached_ends) ) {
+	if ( (cached_starts < s) && ( s <= cached_ends) ) {
 		return s - cached_starts;
 	}
 	double previous_s=0;
-- 
2.43.0


From 136a444c6af684eeb624de4dd6aff80ce44eb138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:33 +0000
Subject: [PATCH 28/62] fix: rounded composite path finished after a single
 point stays at that point

---
 orocos_kdl/src/path_roundedcomposite.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/orocos_kdl/src/path_roundedcomposite.cpp b/orocos_kdl/src/path_roundedcomposite.cpp
index 2916505..5db5173 100644
--- a/orocos_kdl/src/path_roundedcomposite.cpp
+++ b/orocos_kdl/src/path_roundedcomposite.cpp
@@ -71,6 +71,7 @@ void Path_RoundedComposite::Add(const Frame& F_base_point) {
 	double eps = 1E-7;
 	if (nrofpoints == 0) {
 		F_base_start = F_base_point;
+		F_base_via = F_base_point;
 	} else if (nrofpoints == 1) {
 		F_base_via = F_base_point;
 	} else {
-- 
2.43.0


From bc9843b0cd7448b9c92ae9adf01c7b0f9f8ec49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:33 +0000
Subject: [PATCH 29/62] fix: composite trajectory starts from zero duration
 after Destroy

---
 orocos_kdl/src/trajectory_composite.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/orocos_kdl/src/trajectory_composite.cpp b/orocos_kdl/src/trajectory_composite.cpp
index 1583608..c3758ab 100644
--- a/orocos_kdl/src/trajectory_composite.cpp
+++ b/orocos_kdl/src/trajectory_composite.cpp
@@ -98,6 +98,7 @@ namespace KDL {
         }
         vt.erase(vt.begin(),vt.end());
         vd.erase(vd.begin(),vd.end());
+        duration = 0;
     }
 
     Trajectory_Composite::~Trajectory_Composite() {
-- 
2.43.0


From 4413963599b7906cf707eebbe8f151c04578cb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:54 +0000
Subject: [PATCH 30/62] fix: clones of velocity profiles replanned with the
 current limits

---
 orocos_kdl/src/velocityprofile_rect.hpp     | 4 +---
 orocos_kdl/src/velocityprofile_trap.cpp     | 4 +---
 orocos_kdl/src/velocityprofile_traphalf.cpp | 4 +---
 3 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/orocos_kdl/src/velocityprofile_rect.hpp b/orocos_kdl/src/velocityprofile_rect.hpp
index 4482779..4f049b9 100644
--- a/orocos_kdl/src/velocityprofile_rect.hpp
+++ b/orocos_kdl/src/velocityprofile_rect.hpp
@@ -76,9 +76,7 @@ namespace KDL {
 		virtual double Acc(double time) const;
 		virtual void Write(std::ostream& os) const;
 		virtual VelocityProfile* Clone() const{
-			VelocityProfile_Rectangular* res =  new VelocityProfile_Rectangular(maxvel);
-			res->SetProfileDuration( p, p+v*d, d );
-			return res;
+			return new VelocityProfile_Rectangular(*this);
 		}
 		// returns copy of current VelocityProfile object. (virtual constructor)
 		virtual ~VelocityProfile_Rectangular() {}
diff --git a/orocos_kdl/src/velocityprofile_trap.cpp b/orocos_kdl/src/velocityprofile_trap.cpp
index bc20d08..a6a7e4e 100644
--- a/orocos_kdl/src/velocityprofile_trap.cpp
+++ b/orocos_kdl/src/velocityprofile_trap.cpp
@@ -178,9 +178,7 @@ double VelocityProfile_Trap::Acc(double time) const {
 }
 
 VelocityProfile* VelocityProfile_Trap::Clone() const {
-	VelocityProfile_Trap* res =  new VelocityProfile_Trap(maxvel,maxacc);
-	res->SetProfileDuration( this->startpos, this->endpos, this->duration );
-	return res;
+	return new VelocityProfile_Trap(*this);
 }
 
 VelocityProfile_Trap::~VelocityProfile_Trap() {}
diff --git a/orocos_kdl/src/velocityprofile_traphalf.cpp b/orocos_kdl/src/velocityprofile_traphalf.cpp
index c660700..e427aad 100644
--- a/orocos_kdl/src/velocityprofile_traphalf.cpp
+++ b/orocos_kdl/src/velocityprofile_traphalf.cpp
@@ -191,9 +191,7 @@ double VelocityProfile_TrapHalf::Acc(double time) const {
 }
 
 VelocityProfile* VelocityProfile_TrapHalf::Clone() const {
-	VelocityProfile_TrapHalf* res =  new VelocityProfile_TrapHalf(maxvel,maxacc, starting);
-	res->SetProfileDuration( this->startpos, this->endpos, this->duration );
-	return res;
+	return new VelocityProfile_TrapHalf(*this);
 }
 
 VelocityProfile_TrapHalf::~VelocityProfile_TrapHalf() {}
-- 
2.43.0


From 0c19bdcb9868eab6c16067f1ab9dced6ffef04e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:56 +0000
Subject: [PATCH 31/62] fix: rounded corner between short segments curved
 around the wrong centre

---
 orocos_kdl/src/path_roundedcomposite.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/path_roundedcomposite.cpp b/orocos_kdl/src/path_roundedcomposite.cpp
index 5db5173..5cb6bb9 100644
--- a/orocos_kdl/src/path_roundedcomposite.cpp
+++ b/orocos_kdl/src/path_roundedcomposite.cpp
@@ -118,7 +118,8 @@ void Path_RoundedComposite::Add(const Frame& F_base_point) {
 			Frame F_base_circlestart = line1->Pos(line1->LengthToS(abdist - d));
 			Frame F_base_circleend = line2->Pos(line2->LengthToS(d));
 			// end of circle segment, beginning of next line
-			Vector V_base_t = ab * (ab * bc);
+			// (unit vectors, such that the norm does not depend on the size of the segments)
+			Vector V_base_t = (ab / abdist) * ((ab / abdist) * (bc / bcdist));
 			V_base_t.Normalize();
 			comp->Add(
 					new Path_Line(F_base_start, F_base_circlestart,
-- 
2.43.0


From 0be5d4b729d1f2ede0ad87e1fd10ec858dec26ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:18 +0000
Subject: [PATCH 32/62] fix: Newton-Raphson position solver returned a position
 it had not verified, with a stale error code

---
 orocos_kdl/src/chainiksolverpos_nr.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/chainiksolverpos_nr.cpp b/orocos_kdl/src/chainiksolverpos_nr.cpp
index 79747bf..ec98cf9 100644
--- a/orocos_kdl/src/chainiksolverpos_nr.cpp
+++ b/orocos_kdl/src/chainiksolverpos_nr.cpp
@@ -59,10 +59,10 @@ namespace KDL
                 return (error = E_IKSOLVER_FAILED);
             // we chose to continue if the child solver returned a positive
             // "error", which may simply indicate a degraded solution
-            Add(q_out,delta_q,q_out);
             if(Equal(delta_twist,Twist::Zero(),eps))
-                // converged, but possibly with a degraded solution
-                return (rc > E_NOERROR ? E_DEGRADED : E_NOERROR);
+                // q_out converged, but possibly with a degraded solution
+                return (error = (rc > E_NOERROR ? E_DEGRADED : E_NOERROR));
+            Add(q_out,delta_q,q_out);
         }
         return (error = E_MAX_ITERATIONS_EXCEEDED);        // failed to converge
     }
-- 
2.43.0


From df4efc874727bf8ebeb44c138387f55ccf2796ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:18 +0000
Subject: [PATCH 33/62] fix: position solver without joint limits refused
 negative joint positions

---
 orocos_kdl/src/chainiksolverpos_nr_jl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainiksolverpos_nr_jl.cpp b/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
index bb30c45..95166ce 100644
--- a/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
+++ b/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
@@ -46,13 +46,13 @@ namespace KDL
          delta_q(nj),
          maxiter(_maxiter),eps(_eps)
     {
-        q_min.data.setConstant(std::numeric_limits<double>::min());
+        q_min.data.setConstant(-std::numeric_limits<double>::max());
         q_max.data.setConstant(std::numeric_limits<double>::max());
     }
 
     void ChainIkSolverPos_NR_JL::updateInternalDataStructures() {
        nj = chain.getNrOfJoints();
-       q_min.data.conservativeResizeLike(Eigen::VectorXd::Constant(nj,std::numeric_limits<double>::min()));
+       q_min.data.conservativeResizeLike(Eigen::VectorXd::Constant(nj,-std::numeric_limits<double>::max()));
        q_max.data.conservativeResizeLike(Eigen::VectorXd::Constant(nj,std::numeric_limits<double>::max()));
        iksolver.updateInternalDataStructures();
        fksolver.updateInternalDataStructures();
-- 
2.43.0


From 74ec13815c00680d756c6c7e2d601e94d7c6c68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:29 +0000
Subject: [PATCH 34/62] fix: position solver with joint limits returned an
 initial guess outside the limits

---
 orocos_kdl/src/chainiksolverpos_nr_jl.cpp | 26 ++++++++++++++---------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/orocos_kdl/src/chainiksolverpos_nr_jl.cpp b/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
index 95166ce..004279d 100644
--- a/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
+++ b/orocos_kdl/src/chainiksolverpos_nr_jl.cpp
@@ -27,6 +27,20 @@
 
 namespace KDL
 {
+    namespace {
+        void clamp(JntArray& q, const JntArray& q_min, const JntArray& q_max)
+        {
+            for(unsigned int j=0; j<q_min.rows(); j++) {
+                if(q(j) < q_min(j))
+                    q(j) = q_min(j);
+            }
+            for(unsigned int j=0; j<q_max.rows(); j++) {
+                if(q(j) > q_max(j))
+                    q(j) = q_max(j);
+            }
+        }
+    }
+
     ChainIkSolverPos_NR_JL::ChainIkSolverPos_NR_JL(const Chain& _chain, const JntArray& _q_min, const JntArray& _q_max, ChainFkSolverPos& _fksolver,ChainIkSolverVel& _iksolver,
                                              unsigned int _maxiter, double _eps):
         chain(_chain), nj(chain.getNrOfJoints()),
@@ -68,6 +82,7 @@ namespace KDL
             return (error = E_SIZE_MISMATCH);
 
         q_out = q_init;
+        clamp(q_out, q_min, q_max); // the initial guess can already be a solution
 
         unsigned int i;
         for(i=0;i<maxiter;i++){
@@ -82,16 +97,7 @@ namespace KDL
                 return (error = E_IKSOLVERVEL_FAILED);
             Add(q_out,delta_q,q_out);
 
-            for(unsigned int j=0; j<q_min.rows(); j++) {
-                if(q_out(j) < q_min(j))
-                q_out(j) = q_min(j);
-            }
-
-
-            for(unsigned int j=0; j<q_max.rows(); j++) {
-                if(q_out(j) > q_max(j))
-                    q_out(j) = q_max(j);
-            }
+            clamp(q_out, q_min, q_max);
         }
 
         if(i!=maxiter)
-- 
2.43.0


From 1fa955928e2e76ed9feb7d2149f92f843edf586b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:29 +0000
Subject: [PATCH 35/62] fix: Levenberg-Marquardt solver reported differences of
 another position than the one returned

---
 orocos_kdl/src/chainiksolverpos_lma.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainiksolverpos_lma.cpp b/orocos_kdl/src/chainiksolverpos_lma.cpp
index 71d2ab5..bccefbd 100644
--- a/orocos_kdl/src/chainiksolverpos_lma.cpp
+++ b/orocos_kdl/src/chainiksolverpos_lma.cpp
@@ -210,9 +210,11 @@ int ChainIkSolverPos_LMA::CartToJnt(const KDL::JntArray& q_init, const KDL::Fram
 	if (delta_pos_norm<eps) {
 		lastNrOfIter    =0 ;
 		Twist_to_Eigen( diff( T_base_head, T_base_goal), delta_pos );
-		lastDifference  = delta_pos.norm();
+		lastDifference  = delta_pos_norm;
 		lastTransDiff   = delta_pos.topRows(3).norm();
 		lastRotDiff     = delta_pos.bottomRows(3).norm();
+		compute_jacobian(q);
+		jac = L.asDiagonal()*jac;
 		svd.compute(jac);
 		original_Aii    = svd.singularValues();
 		lastSV          = svd.singularValues();
@@ -304,6 +306,8 @@ int ChainIkSolverPos_LMA::CartToJnt(const KDL::JntArray& q_init, const KDL::Fram
 			v      = 2*v;
 		}
 	}
+	compute_fwdpos(q);
+	Twist_to_Eigen( diff( T_base_head, T_base_goal), delta_pos );
 	lastDifference = delta_pos_norm;
 	lastTransDiff  = delta_pos.topRows(3).norm();
 	lastRotDiff    = delta_pos.bottomRows(3).norm();
-- 
2.43.0


From f33c0c6ae5f4f5801315532c39f976bf2efa4ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:56 +0000
Subject: [PATCH 36/62] fix: copy of a tree numbered its joints differently
 from the original

---
 orocos_kdl/src/tree.cpp | 10 ++++++++++
 orocos_kdl/src/tree.hpp |  1 +
 2 files changed, 11 insertions(+)

diff --git a/orocos_kdl/src/tree.cpp b/orocos_kdl/src/tree.cpp
index 70151e6..a485d3f 100644
--- a/orocos_kdl/src/tree.cpp
+++ b/orocos_kdl/src/tree.cpp
@@ -38,9 +38,12 @@ Tree::Tree(const Tree& in) {
 
     segments.insert(make_pair(root_name, TreeElement::Root(root_name)));
     addTree(in, root_name);
+    copyJointNumbers(in);
 }
 
 Tree& Tree::operator=(const Tree& in) {
+    if (this == &in)
+        return *this;
     segments.clear();
     nrOfSegments = 0;
     nrOfJoints = 0;
@@ -48,9 +51,16 @@ Tree& Tree::operator=(const Tree& in) {
 
     segments.insert(make_pair(in.root_name, TreeElement::Root(root_name)));
     this->addTree(in, root_name);
+    copyJointNumbers(in);
     return *this;
 }
 
+void Tree::copyJointNumbers(const Tree& in) {
+    //segments are added depth first, which need not be the order in which the original was built
+    for (SegmentMap::iterator it = segments.begin(); it != segments.end(); ++it)
+        GetTreeElementQNr(it->second) = GetTreeElementQNr(in.segments.find(it->first)->second);
+}
+
 bool Tree::addSegment(const Segment& segment, const std::string& hook_name) {
     SegmentMap::iterator parent = segments.find(hook_name);
     //check if parent exists
diff --git a/orocos_kdl/src/tree.hpp b/orocos_kdl/src/tree.hpp
index fd664e8..90b96b6 100644
--- a/orocos_kdl/src/tree.hpp
+++ b/orocos_kdl/src/tree.hpp
@@ -106,6 +106,7 @@ namespace KDL
         std::string root_name;
 
         bool addTreeRecursive(SegmentMap::const_iterator root, const std::string& hook_name);
+        void copyJointNumbers(const Tree& in);
 
     public:
         /**
-- 
2.43.0


From a3d19e10c1ee445233604da8e8205d3d27f08020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:56 +0000
Subject: [PATCH 37/62] fix: chain extracted towards the root lost the scale of
 its joints

---
 orocos_kdl/src/tree.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/tree.cpp b/orocos_kdl/src/tree.cpp
index a485d3f..5d08a07 100644
--- a/orocos_kdl/src/tree.cpp
+++ b/orocos_kdl/src/tree.cpp
@@ -158,9 +158,11 @@ bool Tree::getChain(const std::string& chain_root, const std::string& chain_tip,
         Frame f_tip = seg.pose(0.0).Inverse();
         Joint jnt = seg.getJoint();
         if (jnt.getType() == Joint::RotX || jnt.getType() == Joint::RotY || jnt.getType() == Joint::RotZ || jnt.getType() == Joint::RotAxis)
-            jnt = Joint(jnt.getName(), f_tip*jnt.JointOrigin(), f_tip.M*(-jnt.JointAxis()), Joint::RotAxis);
+            jnt = Joint(jnt.getName(), f_tip*jnt.JointOrigin(), f_tip.M*(-jnt.JointAxis()), Joint::RotAxis,
+                        jnt.getScale(), jnt.getOffset(), jnt.getInertia(), jnt.getDamping(), jnt.getStiffness());
         else if (jnt.getType() == Joint::TransX || jnt.getType() == Joint::TransY || jnt.getType() == Joint::TransZ || jnt.getType() == Joint::TransAxis)
-            jnt = Joint(jnt.getName(),f_tip*jnt.JointOrigin(), f_tip.M*(-jnt.JointAxis()), Joint::TransAxis);
+            jnt = Joint(jnt.getName(),f_tip*jnt.JointOrigin(), f_tip.M*(-jnt.JointAxis()), Joint::TransAxis,
+                        jnt.getScale(), jnt.getOffset(), jnt.getInertia(), jnt.getDamping(), jnt.getStiffness());
         chain.addSegment(Segment(GetTreeElementSegment(getSegment(parents_chain_root[s+1])->second).getName(),
                                  jnt, f_tip, GetTreeElementSegment(getSegment(parents_chain_root[s+1])->second).getInertia()));
     }
-- 
2.43.0


From 6945b8745b7bf9671258df564b9f5041235a6f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:56 +0000
Subject: [PATCH 38/62] fix: tree solvers read a joint position of trees
 without joints

---
 orocos_kdl/src/treefksolverpos_recursive.cpp | 4 +++-
 orocos_kdl/src/treejnttojacsolver.cpp        | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/treefksolverpos_recursive.cpp b/orocos_kdl/src/treefksolverpos_recursive.cpp
index b919b95..9ef327a 100644
--- a/orocos_kdl/src/treefksolverpos_recursive.cpp
+++ b/orocos_kdl/src/treefksolverpos_recursive.cpp
@@ -49,7 +49,9 @@ namespace KDL {
 	{
 		//gets the frame for the current element (segment)
         const TreeElementType& currentElement = it->second;
-        Frame currentFrame = GetTreeElementSegment(currentElement).pose(q_in(GetTreeElementQNr(currentElement)));
+        const Segment& currentSegment = GetTreeElementSegment(currentElement);
+        //a fixed segment has no joint position, the tree may even have none at all
+        Frame currentFrame = currentSegment.pose(currentSegment.getJoint().getType() != Joint::Fixed ? q_in(GetTreeElementQNr(currentElement)) : 0.0);
 
 		SegmentMap::const_iterator rootIterator = tree.getRootSegment();
 		if(it == rootIterator){
diff --git a/orocos_kdl/src/treejnttojacsolver.cpp b/orocos_kdl/src/treejnttojacsolver.cpp
index 0afb4d1..b31c2c2 100644
--- a/orocos_kdl/src/treejnttojacsolver.cpp
+++ b/orocos_kdl/src/treejnttojacsolver.cpp
@@ -42,7 +42,9 @@ int TreeJntToJacSolver::JntToJac(const JntArray& q_in, Jacobian& jac, const std:
         unsigned int q_nr = GetTreeElementQNr(it->second);
         
         //get the pose of the segment:
-        Frame T_local = GetTreeElementSegment(it->second).pose(q_in(q_nr));
+        //(a fixed segment has no joint position, the tree may even have none at all)
+        Frame T_local = GetTreeElementSegment(it->second).pose(
+            GetTreeElementSegment(it->second).getJoint().getType() != Joint::Fixed ? q_in(q_nr) : 0.0);
         //calculate new T_end:
         T_total = T_local * T_total;
         
-- 
2.43.0


From da0507698e54cc0821c800c4719b7f8360f3893f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:08 +0000
Subject: [PATCH 39/62] fix: sub-tree extracted into its own tree read freed
 segments

---
 orocos_kdl/src/tree.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/tree.cpp b/orocos_kdl/src/tree.cpp
index 5d08a07..bab681f 100644
--- a/orocos_kdl/src/tree.cpp
+++ b/orocos_kdl/src/tree.cpp
@@ -181,8 +181,11 @@ bool Tree::getSubTree(const std::string& segment_name, Tree& tree) const
   if (root == segments.end())
     return false;
   //init the tree, segment_name is the new root.
-  tree = Tree(root->first);
-  return tree.addTreeRecursive(root, segment_name);
+  //(built apart, tree may be this one)
+  Tree subtree(root->first);
+  const bool result = subtree.addTreeRecursive(root, segment_name);
+  tree = subtree;
+  return result;
 }
 
 }//end of namespace
-- 
2.43.0


From 0c96b5568476435151615c27a8b633e8fd6e5d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:15 +0000
Subject: [PATCH 40/62] fix: online tree position solver exceeded its
 task-space limits

---
 orocos_kdl/src/treeiksolverpos_online.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/orocos_kdl/src/treeiksolverpos_online.cpp b/orocos_kdl/src/treeiksolverpos_online.cpp
index 594c3a0..7069304 100644
--- a/orocos_kdl/src/treeiksolverpos_online.cpp
+++ b/orocos_kdl/src/treeiksolverpos_online.cpp
@@ -153,18 +153,17 @@ void TreeIkSolverPos_Online::enforceCartVelLimits()
   x_dot_trans = sqrt( pow(twist_.vel.x(), 2) + pow(twist_.vel.y(), 2) + pow(twist_.vel.z(), 2));
   x_dot_rot = sqrt( pow(twist_.rot.x(), 2) + pow(twist_.rot.y(), 2) + pow(twist_.rot.z(), 2));
 
-  if ( x_dot_trans > x_dot_trans_max_ || x_dot_rot > x_dot_rot_max_ )
+  // the biggest relative overshoot of both velocities determines the scaling
+  double scale = 1.0;
+  if ( x_dot_trans > x_dot_trans_max_ )
+    scale = x_dot_trans_max_ / x_dot_trans;
+  if ( x_dot_rot * scale > x_dot_rot_max_ )
+    scale = x_dot_rot_max_ / x_dot_rot;
+
+  if ( scale < 1.0 )
   {
-    if ( x_dot_trans > x_dot_rot )
-    {
-      twist_.vel = twist_.vel * ( x_dot_trans_max_ / x_dot_trans );
-      twist_.rot = twist_.rot * ( x_dot_trans_max_ / x_dot_trans );
-    }
-    else if ( x_dot_rot > x_dot_trans )
-    {
-      twist_.vel = twist_.vel * ( x_dot_rot_max_ / x_dot_rot );
-      twist_.rot = twist_.rot * ( x_dot_rot_max_ / x_dot_rot );
-    }
+    twist_.vel = twist_.vel * scale;
+    twist_.rot = twist_.rot * scale;
   }
 }
 
-- 
2.43.0


From b99420a5d84dd198f0abff30987658b91b68d215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:15 +0000
Subject: [PATCH 41/62] fix: tree position solvers kept following the endpoints
 of an earlier request

---
 orocos_kdl/src/treeiksolverpos_nr_jl.cpp  | 4 ++++
 orocos_kdl/src/treeiksolverpos_online.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/orocos_kdl/src/treeiksolverpos_nr_jl.cpp b/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
index 2b0b1a3..004acb1 100644
--- a/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
+++ b/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
@@ -47,6 +47,10 @@ namespace KDL {
             if(frames.find(f_des_it->first)==frames.end())
                 return -2;
         
+        //Endpoints without a desired frame stay where they are, whatever was asked of them before:
+        for(Twists::iterator twist_it=delta_twists.begin();twist_it!=delta_twists.end();++twist_it)
+            twist_it->second = Twist::Zero();
+
         unsigned int k=0;
         while(++k <= maxiter) {
             for (Frames::const_iterator f_des_it=p_in.begin();f_des_it!=p_in.end();++f_des_it){
diff --git a/orocos_kdl/src/treeiksolverpos_online.cpp b/orocos_kdl/src/treeiksolverpos_online.cpp
index 7069304..e8fb48a 100644
--- a/orocos_kdl/src/treeiksolverpos_online.cpp
+++ b/orocos_kdl/src/treeiksolverpos_online.cpp
@@ -66,6 +66,10 @@ double TreeIkSolverPos_Online::CartToJnt(const JntArray& q_in, const Frames& p_i
     if(frames_.find(f_des_it->first)==frames_.end())
       return -2;
 
+  // endpoints without a desired frame stay where they are, whatever was asked of them before
+  for (Twists::iterator twist_it=delta_twists_.begin();twist_it!=delta_twists_.end();++twist_it)
+    twist_it->second = Twist::Zero();
+
   for (Frames::const_iterator f_des_it=p_in.begin();f_des_it!=p_in.end();++f_des_it)
   {
     // Get all iterators for this endpoint
-- 
2.43.0


From 6525420c7e004ff0a735ddc1fa69fb6a740da914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:15 +0000
Subject: [PATCH 42/62] fix: tree position solvers went on with an old pose
 when the forward solver failed

---
 orocos_kdl/src/treeiksolverpos_nr_jl.cpp  | 4 +++-
 orocos_kdl/src/treeiksolverpos_online.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/treeiksolverpos_nr_jl.cpp b/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
index 004acb1..4a5efd6 100644
--- a/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
+++ b/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
@@ -58,7 +58,9 @@ namespace KDL {
                 Frames::iterator f_it = frames.find(f_des_it->first);
                 Twists::iterator delta_twist = delta_twists.find(f_des_it->first);
                 
-                fksolver.JntToCart(q_out, f_it->second, f_it->first);
+                int ret = fksolver.JntToCart(q_out, f_it->second, f_it->first);
+                if (ret < 0)
+                    return ret;
                 delta_twist->second = diff(f_it->second, f_des_it->second);
             }
             double res = iksolver.CartToJnt(q_out, delta_twists, delta_q);
diff --git a/orocos_kdl/src/treeiksolverpos_online.cpp b/orocos_kdl/src/treeiksolverpos_online.cpp
index e8fb48a..00970a9 100644
--- a/orocos_kdl/src/treeiksolverpos_online.cpp
+++ b/orocos_kdl/src/treeiksolverpos_online.cpp
@@ -76,7 +76,9 @@ double TreeIkSolverPos_Online::CartToJnt(const JntArray& q_in, const Frames& p_i
     Frames::iterator f_it = frames_.find(f_des_it->first);
     Twists::iterator delta_twists_it = delta_twists_.find(f_des_it->first);
 
-    fksolver_.JntToCart(q_out, f_it->second, f_it->first);
+    int ret = fksolver_.JntToCart(q_out, f_it->second, f_it->first);
+    if (ret < 0)
+      return ret;
     twist_ = diff(f_it->second, f_des_it->second);
 
     // Checks, if the twist (twist_) exceeds the maximum translational and/or rotational velocity
-- 
2.43.0


From c8a4dcb5c648016c0cad9ca06cec6bf53c543425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:15 +0000
Subject: [PATCH 43/62] fix: tree position solver returned an initial guess
 outside the limits and read past short limits

---
 orocos_kdl/src/treeiksolverpos_nr_jl.cpp | 22 ++++++++++++++++------
 orocos_kdl/src/treeiksolverpos_nr_jl.hpp |  2 ++
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/orocos_kdl/src/treeiksolverpos_nr_jl.cpp b/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
index 4a5efd6..690f289 100644
--- a/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
+++ b/orocos_kdl/src/treeiksolverpos_nr_jl.cpp
@@ -47,6 +47,12 @@ namespace KDL {
             if(frames.find(f_des_it->first)==frames.end())
                 return -2;
         
+        if (q_out.rows() != q_min.rows() || q_out.rows() != q_max.rows())
+            return -1;
+
+        //The initial guess need not respect the limits, the solution does:
+        limitPositions(q_out);
+
         //Endpoints without a desired frame stay where they are, whatever was asked of them before:
         for(Twists::iterator twist_it=delta_twists.begin();twist_it!=delta_twists.end();++twist_it)
             twist_it->second = Twist::Zero();
@@ -68,12 +74,7 @@ namespace KDL {
             
             Add(q_out, delta_q, q_out);
             
-            for (unsigned int j = 0; j < q_min.rows(); j++) {
-                if (q_out(j) < q_min(j))
-                    q_out( j) = q_min(j);
-                else if (q_out(j) > q_max(j))
-                    q_out( j) = q_max(j);
-            }
+            limitPositions(q_out);
         }
         if (k <= maxiter)
             return 0;
@@ -82,6 +83,15 @@ namespace KDL {
     }
     
     
+    void TreeIkSolverPos_NR_JL::limitPositions(JntArray& q) const {
+        for (unsigned int j = 0; j < q_min.rows(); j++) {
+            if (q(j) < q_min(j))
+                q(j) = q_min(j);
+            else if (q(j) > q_max(j))
+                q(j) = q_max(j);
+        }
+    }
+
     TreeIkSolverPos_NR_JL::~TreeIkSolverPos_NR_JL() {
         
     }
diff --git a/orocos_kdl/src/treeiksolverpos_nr_jl.hpp b/orocos_kdl/src/treeiksolverpos_nr_jl.hpp
index 456e7fa..195761c 100644
--- a/orocos_kdl/src/treeiksolverpos_nr_jl.hpp
+++ b/orocos_kdl/src/treeiksolverpos_nr_jl.hpp
@@ -65,6 +65,8 @@ public:
     virtual double CartToJnt(const JntArray& q_init, const Frames& p_in, JntArray& q_out);
 
 private:
+    void limitPositions(JntArray& q) const;
+
     const Tree tree;
     JntArray q_min;
     JntArray q_max;
-- 
2.43.0


From b55dc2fccf82a2e49cf939c46b1c25e8bca6ba53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:15 +0000
Subject: [PATCH 44/62] fix: tree velocity solver read past the end of the
 twists when one was missing

---
 orocos_kdl/src/treeiksolvervel_wdls.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/orocos_kdl/src/treeiksolvervel_wdls.cpp b/orocos_kdl/src/treeiksolvervel_wdls.cpp
index 87665db..7c14b43 100644
--- a/orocos_kdl/src/treeiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/treeiksolvervel_wdls.cpp
@@ -52,6 +52,11 @@ namespace KDL {
             if (jacobians.find(v_it->first) == jacobians.end())
                 return -2;
         }
+        //...and if all the endpoints have one
+        for (Jacobians::const_iterator jac_it = jacobians.begin(); jac_it != jacobians.end(); ++jac_it) {
+            if (v_in.find(jac_it->first) == v_in.end())
+                return -2;
+        }
         //Check if q_in has the right size
         if (q_in.rows() != tree.getNrOfJoints())
             return -1;
-- 
2.43.0


From 84c8adc5e4eedfc4311519f975557f2ca3bd92cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:15 +0000
Subject: [PATCH 45/62] fix: undamped tree velocity solver gave NaN for joints
 that move no endpoint

---
 orocos_kdl/src/treeiksolvervel_wdls.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orocos_kdl/src/treeiksolvervel_wdls.cpp b/orocos_kdl/src/treeiksolvervel_wdls.cpp
index 7c14b43..a7896da 100644
--- a/orocos_kdl/src/treeiksolvervel_wdls.cpp
+++ b/orocos_kdl/src/treeiksolvervel_wdls.cpp
@@ -100,7 +100,8 @@ namespace KDL {
                 else
                     sum += 0.0;
             }
-            tmp( i) = sum * ((S(i) / (S(i) * S(i) + lambda * lambda)));
+            const double denominator = S(i) * S(i) + lambda * lambda;
+            tmp( i) = denominator == 0.0 ? 0.0 : sum * (S(i) / denominator);
         }
         
         // x = Lx^-1*V*tmp + x
-- 
2.43.0


From f0332569325ed5b419463739124154c1068a5b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:44 +0000
Subject: [PATCH 46/62] fix: forward solvers for all segments did not remember
 their error and reported another one

---
 orocos_kdl/src/chainfksolverpos_recursive.cpp | 10 +++++-----
 orocos_kdl/src/chainfksolvervel_recursive.cpp | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/orocos_kdl/src/chainfksolverpos_recursive.cpp b/orocos_kdl/src/chainfksolverpos_recursive.cpp
index 487569c..c0e016d 100644
--- a/orocos_kdl/src/chainfksolverpos_recursive.cpp
+++ b/orocos_kdl/src/chainfksolverpos_recursive.cpp
@@ -65,13 +65,13 @@ namespace KDL {
             segmentNr = seg_nr;
 
         if(q_in.rows()!=chain.getNrOfJoints())
-            return -1;
+            return (error = E_SIZE_MISMATCH);
         else if(segmentNr>chain.getNrOfSegments())
-            return -1;
+            return (error = E_OUT_OF_RANGE);
         else if(p_out.size() != segmentNr)
-            return -1;
+            return (error = E_SIZE_MISMATCH);
         else if(segmentNr == 0)
-            return -1;
+            return (error = E_OUT_OF_RANGE);
         else{
             int j=0;
             // Initialization
@@ -89,7 +89,7 @@ namespace KDL {
                     p_out[i] = p_out[i-1]*chain.getSegment(i).pose(0.0);
                 }
             }
-            return 0;
+            return (error = E_NOERROR);
         }
     }
 
diff --git a/orocos_kdl/src/chainfksolvervel_recursive.cpp b/orocos_kdl/src/chainfksolvervel_recursive.cpp
index 8957db0..ec485f1 100644
--- a/orocos_kdl/src/chainfksolvervel_recursive.cpp
+++ b/orocos_kdl/src/chainfksolvervel_recursive.cpp
@@ -76,13 +76,13 @@ namespace KDL
 
 
         if(!(in.q.rows()==chain.getNrOfJoints()&&in.qdot.rows()==chain.getNrOfJoints()))
-            return -1;
+            return (error = E_SIZE_MISMATCH);
         else if(segmentNr>chain.getNrOfSegments())
-            return -1;
+            return (error = E_OUT_OF_RANGE);
         else if(out.size()!=segmentNr)
-            return -1;
+            return (error = E_SIZE_MISMATCH);
         else if(segmentNr == 0)
-            return -1;
+            return (error = E_OUT_OF_RANGE);
         else{
             int j=0;
             // Initialization
@@ -105,7 +105,7 @@ namespace KDL
                                      chain.getSegment(i).twist(0.0,0.0));
                 }
             }
-            return 0;
+            return (error = E_NOERROR);
         }
     }
 }
-- 
2.43.0


From 7dc4efb26943e869abf166cf2880bb01657f18c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:44 +0000
Subject: [PATCH 47/62] fix: Coriolis and gravity terms did not remember their
 error

---
 orocos_kdl/src/chaindynparam.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chaindynparam.cpp b/orocos_kdl/src/chaindynparam.cpp
index f9f9fb9..4a3b63e 100644
--- a/orocos_kdl/src/chaindynparam.cpp
+++ b/orocos_kdl/src/chaindynparam.cpp
@@ -131,7 +131,7 @@ namespace KDL {
 
 
 	//the calculation of coriolis matrix C
-	return chainidsolver_coriolis.CartToJnt(q, q_dot, jntarraynull, wrenchnull, coriolis);
+	return (error = chainidsolver_coriolis.CartToJnt(q, q_dot, jntarraynull, wrenchnull, coriolis));
 
     }
 
@@ -143,7 +143,7 @@ namespace KDL {
 
 	SetToZero(jntarraynull);
 	//the calculation of coriolis matrix C
-	return chainidsolver_gravity.CartToJnt(q, jntarraynull, jntarraynull, wrenchnull, gravity);
+	return (error = chainidsolver_gravity.CartToJnt(q, jntarraynull, jntarraynull, wrenchnull, gravity));
     }
 
     ChainDynParam::~ChainDynParam()
-- 
2.43.0


From 8c52f0b12e0f391756e903f4f4510ce1f8f8f7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:44 +0000
Subject: [PATCH 48/62] fix: Jacobian derivative solver read past the end of
 short joint velocities

---
 orocos_kdl/src/chainjnttojacdotsolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainjnttojacdotsolver.cpp b/orocos_kdl/src/chainjnttojacdotsolver.cpp
index 00e1042..0513a8d 100644
--- a/orocos_kdl/src/chainjnttojacdotsolver.cpp
+++ b/orocos_kdl/src/chainjnttojacdotsolver.cpp
@@ -80,7 +80,7 @@ int ChainJntToJacDotSolver::JntToJacDot(const JntArrayVel& q_in, Jacobian& jdot,
     //Initialize Jacobian to zero since only segmentNr columns are computed
     SetToZero(jdot) ;
 
-    if(q_in.q.rows()!=chain.getNrOfJoints() || nr_of_unlocked_joints_!=jdot.columns())
+    if(q_in.q.rows()!=chain.getNrOfJoints() || q_in.qdot.rows()!=chain.getNrOfJoints() || nr_of_unlocked_joints_!=jdot.columns())
         return (error = E_SIZE_MISMATCH);
     else if(segmentNr>chain.getNrOfSegments())
         return (error = E_OUT_OF_RANGE);
-- 
2.43.0


From ecbb07a6b257a16d031485fd689a759eb8956aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:44 +0000
Subject: [PATCH 49/62] fix: hybrid dynamics solver used a changed chain with
 the same number of segments

---
 orocos_kdl/src/chainhdsolver_vereshchagin.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
index 75f58e9..030d7d6 100644
--- a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
+++ b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
@@ -56,8 +56,7 @@ void ChainHdSolver_Vereshchagin::updateInternalDataStructures() {
 int ChainHdSolver_Vereshchagin::CartToJnt(const JntArray &q, const JntArray &q_dot, JntArray &q_dotdot, const Jacobian& alfa, const JntArray& beta, const Wrenches& f_ext, const JntArray &ff_torques, JntArray &constraint_torques)
 {
     //Check sizes always
-    nj = chain.getNrOfJoints();
-    if(ns != chain.getNrOfSegments())
+    if(nj != chain.getNrOfJoints() || ns != chain.getNrOfSegments())
         return (error = E_NOT_UP_TO_DATE);
     if (q.rows() != nj || q_dot.rows() != nj || q_dotdot.rows() != nj || ff_torques.rows() != nj || constraint_torques.rows() != nj || f_ext.size() != ns)
         return (error = E_SIZE_MISMATCH);
-- 
2.43.0


From 0fd8ae2f8d394c63a958ff44b374522792288772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:19 +0000
Subject: [PATCH 50/62] fix: external wrench estimator counted the initial
 momentum twice

---
 orocos_kdl/src/chainexternalwrenchestimator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orocos_kdl/src/chainexternalwrenchestimator.cpp b/orocos_kdl/src/chainexternalwrenchestimator.cpp
index 8c9d752..a86a88e 100644
--- a/orocos_kdl/src/chainexternalwrenchestimator.cpp
+++ b/orocos_kdl/src/chainexternalwrenchestimator.cpp
@@ -83,6 +83,9 @@ int ChainExternalWrenchEstimator::setInitialMomentum(const JntArray &joint_posit
 
     initial_jnt_momentum.data = jnt_mass_matrix.data * joint_velocity.data;
 
+    // The change of inertia is counted from this state on
+    previous_jnt_mass_matrix.data = jnt_mass_matrix.data;
+
     // Reset data because of the new momentum offset
     SetToZero(estimated_momentum_integral);
     SetToZero(filtered_estimated_ext_torque);
-- 
2.43.0


From 5e17b0dfb10f8e268e7c078a88bb649307753a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:19 +0000
Subject: [PATCH 51/62] fix: external wrench estimator started from
 uninitialised inertia after an update

---
 orocos_kdl/src/chainexternalwrenchestimator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/orocos_kdl/src/chainexternalwrenchestimator.cpp b/orocos_kdl/src/chainexternalwrenchestimator.cpp
index a86a88e..478b544 100644
--- a/orocos_kdl/src/chainexternalwrenchestimator.cpp
+++ b/orocos_kdl/src/chainexternalwrenchestimator.cpp
@@ -48,6 +48,7 @@ void ChainExternalWrenchEstimator::updateInternalDataStructures()
     ns = CHAIN.getNrOfSegments();
     jnt_mass_matrix.resize(nj);
     previous_jnt_mass_matrix.resize(nj);
+    SetToZero(previous_jnt_mass_matrix);
     jnt_mass_matrix_dot.resize(nj);
     initial_jnt_momentum.resize(nj);
     estimated_momentum_integral.resize(nj);
-- 
2.43.0


From dd4f08ff19a21988e0ad5c91b1c43782e76e7fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:39 +0000
Subject: [PATCH 52/62] fix: external wrench estimator lost its gain when its
 chain had no joints at first

---
 orocos_kdl/src/chainexternalwrenchestimator.cpp | 4 ++--
 orocos_kdl/src/chainexternalwrenchestimator.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/chainexternalwrenchestimator.cpp b/orocos_kdl/src/chainexternalwrenchestimator.cpp
index 478b544..37ed3d9 100644
--- a/orocos_kdl/src/chainexternalwrenchestimator.cpp
+++ b/orocos_kdl/src/chainexternalwrenchestimator.cpp
@@ -24,7 +24,7 @@ namespace KDL {
 
 ChainExternalWrenchEstimator::ChainExternalWrenchEstimator(const Chain &chain, const Vector &gravity, const double sample_frequency, const double estimation_gain, const double filter_constant, const double eps, const int maxiter) :
     CHAIN(chain),
-    DT_SEC(1.0 / sample_frequency), FILTER_CONST(filter_constant),
+    DT_SEC(1.0 / sample_frequency), FILTER_CONST(filter_constant), GAIN(estimation_gain),
     svd_eps(eps),
     svd_maxiter(maxiter),
     nj(CHAIN.getNrOfJoints()), ns(CHAIN.getNrOfSegments()),
@@ -65,7 +65,7 @@ void ChainExternalWrenchEstimator::updateInternalDataStructures()
     S.conservativeResizeLike(Eigen::VectorXd::Zero(6));
     S_inv.conservativeResizeLike(Eigen::VectorXd::Zero(6));
     tmp.conservativeResizeLike(Eigen::VectorXd::Zero(6));
-    ESTIMATION_GAIN.conservativeResizeLike(Eigen::VectorXd::Constant(nj, ESTIMATION_GAIN(0)));
+    ESTIMATION_GAIN.conservativeResizeLike(Eigen::VectorXd::Constant(nj, GAIN));
     dynparam_solver.updateInternalDataStructures();
     jacobian_solver.updateInternalDataStructures();
     fk_pos_solver.updateInternalDataStructures();
diff --git a/orocos_kdl/src/chainexternalwrenchestimator.hpp b/orocos_kdl/src/chainexternalwrenchestimator.hpp
index 3147a5d..f1a9c64 100644
--- a/orocos_kdl/src/chainexternalwrenchestimator.hpp
+++ b/orocos_kdl/src/chainexternalwrenchestimator.hpp
@@ -109,7 +109,7 @@ namespace KDL {
 
     private:
         const Chain &CHAIN;
-        const double DT_SEC, FILTER_CONST;
+        const double DT_SEC, FILTER_CONST, GAIN;
         double svd_eps;
         int svd_maxiter;
         unsigned int nj, ns;
-- 
2.43.0


From 2136eb60d079dd518e4a8720d8392b0a298b1bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:20 +0000
Subject: [PATCH 53/62] fix: hybrid dynamics solver read past the joints and
 gave NaN for fixed joints

---
 orocos_kdl/src/chainhdsolver_vereshchagin.cpp | 33 +++++++++++++------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
index 030d7d6..fa715e5 100644
--- a/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
+++ b/orocos_kdl/src/chainhdsolver_vereshchagin.cpp
@@ -88,18 +88,22 @@ void ChainHdSolver_Vereshchagin::initial_upwards_sweep(const JntArray &q, const
         //Calculate segment properties: X,S,vj,cj
         const Segment& segment = chain.getSegment(i);
         segment_info& s = results[i + 1];
+        //A fixed joint has no position or velocity of its own
+        const bool fixed = segment.getJoint().getType() == Joint::Fixed;
+        const double q_ = fixed ? 0.0 : q(j);
+        const double qdot_ = fixed ? 0.0 : qdot(j);
         //The pose between the joint root and the segment tip (tip expressed in joint root coordinates)
-        s.F = segment.pose(q(j)); //X pose of each link in link coord system
+        s.F = segment.pose(q_); //X pose of each link in link coord system
 
         F_total = F_total * s.F; //X pose of the each link in root coord system
         s.F_base = F_total; //X pose of the each link in root coord system for getter functions
 
         //The velocity due to the joint motion of the segment expressed in the segments reference frame (tip)
-        Twist vj = s.F.M.Inverse(segment.twist(q(j), qdot(j))); //XDot of each link
+        Twist vj = s.F.M.Inverse(segment.twist(q_, qdot_)); //XDot of each link
         //Twist aj = s.F.M.Inverse(segment.twist(q(j), qdotdot(j))); //XDotDot of each link
 
         //The unit velocity due to the joint motion of the segment expressed in the segments reference frame (tip)
-        s.Z = s.F.M.Inverse(segment.twist(q(j), 1.0));
+        s.Z = s.F.M.Inverse(segment.twist(q_, 1.0));
         //Put Z in the joint root reference frame:
         s.Z = s.F * s.Z;
 
@@ -128,7 +132,7 @@ void ChainHdSolver_Vereshchagin::initial_upwards_sweep(const JntArray &q, const
         //external forces are taken into account through s.U.
         Wrench FextLocal = F_total.M.Inverse() * f_ext[i];
         s.U = s.v * (s.H * s.v) - FextLocal; //f_ext[i];
-        if (segment.getJoint().getType() != Joint::Fixed)
+        if (!fixed)
             j++;
     }
 
@@ -234,10 +238,11 @@ void ChainHdSolver_Vereshchagin::downwards_sweep(const Jacobian& alfa, const Jnt
              * - equation a) in Vereshchagin89
              * - equation 9.28, page 188, Featherstone book 2008
              */
-            if (chain.getSegment(i - 1).getJoint().getType() != Joint::Fixed)
+            const bool fixed = chain.getSegment(i - 1).getJoint().getType() == Joint::Fixed;
+            if (!fixed)
                 s.D = chain.getSegment(i - 1).getJoint().getInertia() + dot(s.Z, s.PZ);
             else
-                s.D = dot(s.Z, s.PZ);
+                s.D = 1.0; // Z is zero: everything that is divided by D is zero too
 
             s.PC = s.P * s.C;
 
@@ -247,14 +252,14 @@ void ChainHdSolver_Vereshchagin::downwards_sweep(const Jacobian& alfa, const Jnt
 
             //projection of coriolis and centrepital forces into joint subspace (0 0 Z)
             s.totalBias = -dot(s.Z, s.R + s.PC);
-            s.u = ff_torques(j) + s.totalBias;
+            s.u = fixed ? 0.0 : ff_torques(j) + s.totalBias;
 
             //Matrix form of Z, put rotations above translations
             Vector6d vZ;
             vZ << Eigen::Vector3d::Map(s.Z.rot.data), Eigen::Vector3d::Map(s.Z.vel.data);
             s.EZ.noalias() = s.E.transpose() * vZ;
 
-            if (chain.getSegment(i - 1).getJoint().getType() != Joint::Fixed)
+            if (!fixed)
                 j--;
         }
     }
@@ -316,6 +321,15 @@ void ChainHdSolver_Vereshchagin::final_upwards_sweep(JntArray &q_dotdot, JntArra
             a_p = results[i - 1].acc;
         }
 
+        //A fixed joint has no torque or acceleration of its own
+        if (chain.getSegment(i - 1).getJoint().getType() == Joint::Fixed)
+        {
+            s.constAccComp = 0.0;
+            s.nullspaceAccComp = 0.0;
+            s.acc = s.F.Inverse(a_p + s.C);
+            continue;
+        }
+
         //The contribution of the constraint forces at segment i
         Vector6d tmp = s.E*nu;
         Wrench constraint_force = Wrench(Vector(tmp(3), tmp(4), tmp(5)),
@@ -342,8 +356,7 @@ void ChainHdSolver_Vereshchagin::final_upwards_sweep(JntArray &q_dotdot, JntArra
         q_dotdot(j) = (s.nullspaceAccComp + parentAccComp + s.constAccComp);
         // Returns segment's spatial acceleration in link distal-tip coordinates. For use needs to be transformed
         s.acc = s.F.Inverse(a_p + s.Z * q_dotdot(j) + s.C);
-        if (chain.getSegment(i - 1).getJoint().getType() != Joint::Fixed)
-            j++;
+        j++;
     }
 }
 
-- 
2.43.0


From 45842d82c84ecc5f565081eb461fb5666cf288ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:00 +0000
Subject: [PATCH 54/62] fix: latest error of the hybrid dynamics solver was not
 accessible

---
 orocos_kdl/src/chainhdsolver_vereshchagin.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/chainhdsolver_vereshchagin.hpp b/orocos_kdl/src/chainhdsolver_vereshchagin.hpp
index 86be647..c3c4944 100644
--- a/orocos_kdl/src/chainhdsolver_vereshchagin.hpp
+++ b/orocos_kdl/src/chainhdsolver_vereshchagin.hpp
@@ -363,7 +363,7 @@ namespace KDL
  * @ingroup KinematicFamily
  */
 
-class ChainHdSolver_Vereshchagin : KDL::SolverI
+class ChainHdSolver_Vereshchagin : public KDL::SolverI
 {
     typedef std::vector<Twist> Twists;
     typedef std::vector<Frame> Frames;
-- 
2.43.0


From 4df67014e0b485f1de958cfe59e66d682cc4ab9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:40 +0000
Subject: [PATCH 55/62] fix: EatWord wrote past the end of the buffer for words
 that do not fit

---
 orocos_kdl/src/utilities/utility_io.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orocos_kdl/src/utilities/utility_io.cxx b/orocos_kdl/src/utilities/utility_io.cxx
index eacf6cb..0725c19 100644
--- a/orocos_kdl/src/utilities/utility_io.cxx
+++ b/orocos_kdl/src/utilities/utility_io.cxx
@@ -190,11 +190,11 @@ void EatWord(std::istream& is,const char* delim,char* storage,int maxsize)
     size=0;
     int count = 0;
     while ((count==0)&&(strchr(delim,ch)==NULL)) {
-        *p = (char) toupper(ch);
-        ++p;
-        if (size==maxsize) {
+        if (size>=maxsize-1) {
            throw Error_BasicIO_ToBig();
         }
+        *p = (char) toupper(ch);
+        ++p;
         _check_istream(is);
         ++size;
         //ch = is.get();
-- 
2.43.0


From 4ab6052da0261721c47fb8881ff597b1d2b6a644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:40 +0000
Subject: [PATCH 56/62] fix: a comment that directly follows another comment
 was not skipped

---
 orocos_kdl/src/utilities/utility_io.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/utilities/utility_io.cxx b/orocos_kdl/src/utilities/utility_io.cxx
index 0725c19..1005f88 100644
--- a/orocos_kdl/src/utilities/utility_io.cxx
+++ b/orocos_kdl/src/utilities/utility_io.cxx
@@ -67,8 +67,8 @@ namespace KDL {
         }
     } while (true);
     if (countp!=NULL) *countp = count;
-    ch = is.get();
-    return ch;
+    // a comment counts as a space, what follows it is left to the caller
+    return ' ';
 }
 
 // Eats space-like characters and comments
-- 
2.43.0


From 950ab82e5c143045fba9dafbce9e8ea7f9b71cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:40 +0000
Subject: [PATCH 57/62] fix: a keyword at the very end of the text could not be
 read

---
 orocos_kdl/src/utilities/utility_io.cxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/orocos_kdl/src/utilities/utility_io.cxx b/orocos_kdl/src/utilities/utility_io.cxx
index 1005f88..ffd06d8 100644
--- a/orocos_kdl/src/utilities/utility_io.cxx
+++ b/orocos_kdl/src/utilities/utility_io.cxx
@@ -189,7 +189,7 @@ void EatWord(std::istream& is,const char* delim,char* storage,int maxsize)
     p = storage;
     size=0;
     int count = 0;
-    while ((count==0)&&(strchr(delim,ch)==NULL)) {
+    while ((count==0)&&(ch!=EOF)&&(strchr(delim,ch)==NULL)) {
         if (size>=maxsize-1) {
            throw Error_BasicIO_ToBig();
         }
@@ -201,7 +201,12 @@ void EatWord(std::istream& is,const char* delim,char* storage,int maxsize)
         ch =_EatSpace(is,&count);
     }
     *p=0;
-    is.putback(ch);
+    if (ch==EOF) {
+        // the text ends right after the word, that is not an error
+        if (size!=0) is.clear(is.rdstate() & ~std::ios::failbit);
+    } else {
+        is.putback(ch);
+    }
 }
 
 
-- 
2.43.0


From fa8c3295e37b5765772f37942f1eb67c3acc7c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:40 +0000
Subject: [PATCH 58/62] fix: reading a Rotation2 left it unchanged

---
 orocos_kdl/src/frames_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/frames_io.cpp b/orocos_kdl/src/frames_io.cpp
index 0af50bb..e5daa4a 100644
--- a/orocos_kdl/src/frames_io.cpp
+++ b/orocos_kdl/src/frames_io.cpp
@@ -294,7 +294,7 @@ std::istream& operator >> (std::istream& is,Rotation2& r)
     Eat(is,'[');
     double val;
     is >> val;
-    r.Rot(val*deg2rad);
+    r = Rotation2::Rot(val*deg2rad);
     EatEnd(is,']');
     IOTracePop();
     return is;
-- 
2.43.0


From c1f4a69ed7d9fb595e7b2af9aa6160e3f30dc55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:40 +0000
Subject: [PATCH 59/62] fix: Error_IO did not store its type number

---
 orocos_kdl/src/utilities/error.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/utilities/error.h b/orocos_kdl/src/utilities/error.h
index 785fa51..3363868 100644
--- a/orocos_kdl/src/utilities/error.h
+++ b/orocos_kdl/src/utilities/error.h
@@ -70,7 +70,7 @@ class Error_IO : public Error {
 	std::string msg;
 	int typenr;
 public:
-	Error_IO(const std::string& _msg="Unspecified I/O Error",int typenr=0):msg(_msg) {}
+	Error_IO(const std::string& _msg="Unspecified I/O Error",int _typenr=0):msg(_msg),typenr(_typenr) {}
     virtual const char* Description() const {return msg.c_str();}
     virtual int GetType() const {return typenr;}
 };
-- 
2.43.0


From cd3fe463f2da5685de415aeeee42038b38bc7241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:01 +0000
Subject: [PATCH 60/62] fix: a trajectory segment read from text had no planned
 velocity profile

---
 orocos_kdl/src/trajectory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/orocos_kdl/src/trajectory.cpp b/orocos_kdl/src/trajectory.cpp
index 914af5f..3a85b63 100644
--- a/orocos_kdl/src/trajectory.cpp
+++ b/orocos_kdl/src/trajectory.cpp
@@ -65,6 +65,7 @@ Trajectory* Trajectory::Read(std::istream& is) {
 		EatEnd(is,']');
 		IOTracePop();
 		IOTracePop();
+		motprof->SetProfile(0,geom->PathLength());
 		return new  Trajectory_Segment(geom.release(),motprof.release());
 	} else {
 		throw Error_MotionIO_Unexpected_Traj();
-- 
2.43.0


From 526c7ff9bed30a921f850c538671acc60da40e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:10 +0000
Subject: [PATCH 61/62] fix: Python solvers did not keep the chain and solvers
 they refer to alive

---
 python_orocos_kdl/PyKDL/dynamics.cpp |  2 +-
 python_orocos_kdl/PyKDL/kinfam.cpp   | 31 ++++++++++++++++------------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/python_orocos_kdl/PyKDL/dynamics.cpp b/python_orocos_kdl/PyKDL/dynamics.cpp
index 46d0f50..6e81a3b 100644
--- a/python_orocos_kdl/PyKDL/dynamics.cpp
+++ b/python_orocos_kdl/PyKDL/dynamics.cpp
@@ -86,7 +86,7 @@ void init_dynamics(pybind11::module &m)
     // ChainDynParam
     // --------------------
     py::class_<ChainDynParam> chain_dyn_param(m, "ChainDynParam");
-    chain_dyn_param.def(py::init<const Chain&, Vector>());
+    chain_dyn_param.def(py::init<const Chain&, Vector>(), py::keep_alive<1, 2>());
     chain_dyn_param.def("JntToCoriolis", &ChainDynParam::JntToCoriolis, py::arg("q"), py::arg("q_dot"), py::arg("coriolis"));
     chain_dyn_param.def("JntToMass", &ChainDynParam::JntToMass, py::arg("q"), py::arg("H"));
     chain_dyn_param.def("JntToGravity", &ChainDynParam::JntToGravity, py::arg("q"), py::arg("gravity"));
diff --git a/python_orocos_kdl/PyKDL/kinfam.cpp b/python_orocos_kdl/PyKDL/kinfam.cpp
index fec7eda..f92d51c 100644
--- a/python_orocos_kdl/PyKDL/kinfam.cpp
+++ b/python_orocos_kdl/PyKDL/kinfam.cpp
@@ -355,14 +355,14 @@ void init_kinfam(pybind11::module &m)
     // ChainFkSolverPos_recursive
     // ------------------------------
     py::class_<ChainFkSolverPos_recursive, ChainFkSolverPos> chain_fk_solver_pos_recursive(m, "ChainFkSolverPos_recursive");
-    chain_fk_solver_pos_recursive.def(py::init<const Chain&>(), py::arg("chain"));
+    chain_fk_solver_pos_recursive.def(py::init<const Chain&>(), py::arg("chain"), py::keep_alive<1, 2>());
 
 
     // ------------------------------
     // ChainFkSolverVel_recursive
     // ------------------------------
     py::class_<ChainFkSolverVel_recursive, ChainFkSolverVel> chain_fk_solver_vel_recursive(m, "ChainFkSolverVel_recursive");
-    chain_fk_solver_vel_recursive.def(py::init<const Chain&>(), py::arg("chain"));
+    chain_fk_solver_vel_recursive.def(py::init<const Chain&>(), py::arg("chain"), py::keep_alive<1, 2>());
 
 
     // --------------------
@@ -390,7 +390,8 @@ void init_kinfam(pybind11::module &m)
     py::class_<ChainIkSolverPos_NR, ChainIkSolverPos> chain_ik_solver_pos_NR(m, "ChainIkSolverPos_NR");
     chain_ik_solver_pos_NR.def(py::init<const Chain&, ChainFkSolverPos&, ChainIkSolverVel&, unsigned int, double>(),
                                py::arg("chain"), py::arg("fksolver"), py::arg("iksolver"),
-                               py::arg("maxiter")=100, py::arg("eps")=epsilon);
+                               py::arg("maxiter")=100, py::arg("eps")=epsilon,
+                               py::keep_alive<1, 2>(), py::keep_alive<1, 3>(), py::keep_alive<1, 4>());
 
 
     // ---------------------------
@@ -400,7 +401,8 @@ void init_kinfam(pybind11::module &m)
     chain_ik_solver_pos_NR_JL.def(py::init<const Chain&, const JntArray&, const JntArray&, ChainFkSolverPos&,
                                   ChainIkSolverVel&, unsigned int, double>(),
                                   py::arg("chain"), py::arg("q_min"), py::arg("q_max"), py::arg("fksolver"),
-                                  py::arg("iksolver"), py::arg("maxiter")=100, py::arg("eps")=epsilon);
+                                  py::arg("iksolver"), py::arg("maxiter")=100, py::arg("eps")=epsilon,
+                                  py::keep_alive<1, 2>(), py::keep_alive<1, 5>(), py::keep_alive<1, 6>());
 
 
     // -------------------------
@@ -408,7 +410,8 @@ void init_kinfam(pybind11::module &m)
     // -------------------------
     py::class_<ChainIkSolverVel_pinv, ChainIkSolverVel> chain_ik_solver_vel_pinv(m, "ChainIkSolverVel_pinv");
     chain_ik_solver_vel_pinv.def(py::init<const Chain&, double, int>(),
-                                 py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150);
+                                 py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150,
+                                 py::keep_alive<1, 2>());
 
 
     // -------------------------
@@ -416,7 +419,8 @@ void init_kinfam(pybind11::module &m)
     // -------------------------
     py::class_<ChainIkSolverVel_wdls, ChainIkSolverVel> chain_ik_solver_vel_wdls(m, "ChainIkSolverVel_wdls");
     chain_ik_solver_vel_wdls.def(py::init<const Chain&, double, int>(),
-                                 py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150);
+                                 py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150,
+                                 py::keep_alive<1, 2>());
     chain_ik_solver_vel_wdls.def("setWeightTS", &ChainIkSolverVel_wdls::setWeightTS, py::arg("matrix"));
     chain_ik_solver_vel_wdls.def("setWeightJS", &ChainIkSolverVel_wdls::setWeightJS, py::arg("matrix"));
     chain_ik_solver_vel_wdls.def("setLambda", &ChainIkSolverVel_wdls::setLambda, py::arg("lambda"));
@@ -437,10 +441,10 @@ void init_kinfam(pybind11::module &m)
     py::class_<ChainIkSolverPos_LMA, ChainIkSolverPos> chain_ik_solver_pos_LMA(m, "ChainIkSolverPos_LMA");
     chain_ik_solver_pos_LMA.def(py::init<const Chain&, const Eigen::Matrix<double,6,1>&, double, int, double>(),
                                 py::arg("chain"), py::arg("L"), py::arg("eps")=1e-5, py::arg("maxiter")=500,
-                                py::arg("eps_joints")=1e-15);
+                                py::arg("eps_joints")=1e-15, py::keep_alive<1, 2>());
     chain_ik_solver_pos_LMA.def(py::init<const Chain&, double, int, double>(),
                                 py::arg("chain"), py::arg("eps")=1e-5, py::arg("maxiter")=500,
-                                py::arg("eps_joints")=1e-15);
+                                py::arg("eps_joints")=1e-15, py::keep_alive<1, 2>());
 
 
     // ----------------------------
@@ -448,7 +452,8 @@ void init_kinfam(pybind11::module &m)
     // ----------------------------
     py::class_<ChainIkSolverVel_pinv_nso, ChainIkSolverVel> chain_ik_solver_vel_pinv_nso(m, "ChainIkSolverVel_pinv_nso");
     chain_ik_solver_vel_pinv_nso.def(py::init<const Chain&, double, int, double>(),
-                                     py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150, py::arg("alpha")=0.25);
+                                     py::arg("chain"), py::arg("eps")=0.00001, py::arg("maxiter")=150, py::arg("alpha")=0.25,
+                                     py::keep_alive<1, 2>());
     chain_ik_solver_vel_pinv_nso.def("setWeights", &ChainIkSolverVel_pinv_nso::setWeights, py::arg("weights"));
     chain_ik_solver_vel_pinv_nso.def("setOptPos", &ChainIkSolverVel_pinv_nso::setOptPos, py::arg("opt_pos"));
     chain_ik_solver_vel_pinv_nso.def("setAlpha", &ChainIkSolverVel_pinv_nso::setAlpha, py::arg("alpha"));
@@ -461,14 +466,14 @@ void init_kinfam(pybind11::module &m)
     // ChainIkSolverVel_pinv_givens
     // -------------------------------
     py::class_<ChainIkSolverVel_pinv_givens, ChainIkSolverVel> chain_ik_solver_vel_pinv_givens(m, "ChainIkSolverVel_pinv_givens");
-    chain_ik_solver_vel_pinv_givens.def(py::init<const Chain&>(), py::arg("chain"));
+    chain_ik_solver_vel_pinv_givens.def(py::init<const Chain&>(), py::arg("chain"), py::keep_alive<1, 2>());
 
 
     // ------------------------------
     // ChainJntToJacSolver
     // ------------------------------
     py::class_<ChainJntToJacSolver, SolverI> chain_jnt_to_jac_solver(m, "ChainJntToJacSolver");
-    chain_jnt_to_jac_solver.def(py::init<const Chain&>(), py::arg("chain"));
+    chain_jnt_to_jac_solver.def(py::init<const Chain&>(), py::arg("chain"), py::keep_alive<1, 2>());
     chain_jnt_to_jac_solver.def("JntToJac", &ChainJntToJacSolver::JntToJac,
                                 py::arg("q_in"), py::arg("jac"), py::arg("seg_nr")=-1);
     chain_jnt_to_jac_solver.def("setLockedJoints", &ChainJntToJacSolver::setLockedJoints, py::arg("locked_joints"));
@@ -478,7 +483,7 @@ void init_kinfam(pybind11::module &m)
     // ChainJntToJacDotSolver
     // ------------------------------
     py::class_<ChainJntToJacDotSolver, SolverI> chain_jnt_to_jac_dot_solver(m, "ChainJntToJacDotSolver");
-    chain_jnt_to_jac_dot_solver.def(py::init<const Chain&>(), py::arg("chain"));
+    chain_jnt_to_jac_dot_solver.def(py::init<const Chain&>(), py::arg("chain"), py::keep_alive<1, 2>());
     chain_jnt_to_jac_dot_solver.def("JntToJacDot", (int (ChainJntToJacDotSolver::*)(const JntArrayVel&, Jacobian&, int)) &ChainJntToJacDotSolver::JntToJacDot,
                                     py::arg("q_in"), py::arg("jdot"), py::arg("seg_nr")=-1);
     chain_jnt_to_jac_dot_solver.def("JntToJacDot", (int (ChainJntToJacDotSolver::*)(const JntArrayVel&, Twist&, int)) &ChainJntToJacDotSolver::JntToJacDot,
@@ -512,5 +517,5 @@ void init_kinfam(pybind11::module &m)
     // ChainIdSolver_RNE
     // ------------------------------
     py::class_<ChainIdSolver_RNE, ChainIdSolver> chain_id_solver_RNE(m, "ChainIdSolver_RNE");
-    chain_id_solver_RNE.def(py::init<const Chain&, Vector>(), py::arg("chain"), py::arg("grav"));
+    chain_id_solver_RNE.def(py::init<const Chain&, Vector>(), py::arg("chain"), py::arg("grav"), py::keep_alive<1, 2>());
 }
-- 
2.43.0


From 7facc8d4f0964cb3bcce56b2c3a839ed4974cf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:26 +0000
Subject: [PATCH 62/62] fix: clone of a rotational interpolation lost its start
 and end

---
 orocos_kdl/src/rotational_interpolation_sa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_kdl/src/rotational_interpolation_sa.cpp b/orocos_kdl/src/rotational_interpolation_sa.cpp
index 6b5a56b..1580d0b 100644
--- a/orocos_kdl/src/rotational_interpolation_sa.cpp
+++ b/orocos_kdl/src/rotational_interpolation_sa.cpp
@@ -81,7 +81,7 @@ RotationalInterpolation_SingleAxis::~RotationalInterpolation_SingleAxis() {
 
 
 RotationalInterpolation* RotationalInterpolation_SingleAxis::Clone() const {
-	return new RotationalInterpolation_SingleAxis();
+	return new RotationalInterpolation_SingleAxis(*this);
 }
 
 }
-- 
2.43.0

