#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so that statements stay reviewable)."""
import json,os
S="orocos_kdl/src/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[S+f if not f.startswith(("orocos","python")) else f for f in files],
                   mechanism=[dict(name=n,where=(S+w if not w.startswith(("orocos","python")) else w)) for n,w in mech],
                   observe_at=observe or [])))
I=["inputs"]; IC=["inputs","configurations"]; IH=["inputs","histories"]
T="the unit tests sample a few fixed or random numeric inputs and compare with a tolerance; "
p("C01","Rotations and frames form a group acting on points",
 "Composing, inverting and applying rotations and frames obeys the laws of rigid motions: products act like successive application, every form of the inverse (new object, in place, applied to an argument) undoes the motion, identity is neutral and products of proper rotations stay proper rotations. Element access, the 4x4 export and the column accessors describe that same motion.",
 I,"for all real-valued proper rotations, translations, points and free matrix entries","the laws quantify over all rotations and points; "+T+"a wrong term that vanishes on the sampled values stays hidden",
 ["frames.hpp","frames.inl","frames.cpp"],[("Rotation/Frame operator*, Inverse, SetInverse, Make4x4, operator()","frames.inl")],["KDL::Rotation","KDL::Frame"])
p("C02","Twists and wrenches transform consistently and preserve power",
 "Changing the base, the reference point or the frame of a twist or a wrench gives the velocity or force of the same physical motion: power (the twist-wrench product) is invariant, inverse transformations undo the forward ones, and the spatial cross products agree with the motion and force action. Component access and linear arithmetic on twists and wrenches act on each of the six components independently.",
 I,"for all frames, reference points, twists, wrenches and scalars",T+"power invariance must hold for every pair",
 ["frames.hpp","frames.inl","stiffness.hpp"],[("Frame/Rotation * Twist/Wrench, RefPoint, dot, spatial *","frames.inl")],["KDL::Twist","KDL::Wrench"])
p("C03","Rotation and frame builders mean what they document",
 "Each rotation builder (about a coordinate axis, about an arbitrary axis, roll-pitch-yaw, Euler ZYZ and ZYX, quaternion, in-place rotations, from axis vectors) returns the proper rotation given by its documented composition of elementary rotations, and the two Denavit-Hartenberg builders return their documented product of screw motions. Rotating about an axis of any length equals rotating about its unit vector, and a zero axis yields the identity.",
 I,"for all angles, axes, unit quaternions and DH parameters",T+"sign and order errors can cancel at the sampled angles",
 ["frames.cpp","frames.inl","frames.hpp"],[("Rotation::Rot/Rot2/RPY/Euler*/Quaternion, Frame::DH*","frames.cpp")],["KDL::Rotation"])
p("C04","Angle and quaternion extraction rebuilds the same rotation",
 "For every proper rotation, the extracted roll-pitch-yaw, Euler ZYX, Euler ZYZ angles and quaternion, fed back to the matching builder, reproduce that rotation, including at gimbal-lock configurations. The extracted angles lie in their documented ranges and the quaternion has unit norm.",
 I,"for all proper rotations (generic and singular poses)",T+"the branch cuts and singular poses are measure-zero and rarely sampled",
 ["frames.cpp","frames.inl"],[("GetRPY, GetEulerZYX, GetEulerZYZ, GetQuaternion","frames.cpp")],["KDL::Rotation"])
p("C05","Axis-angle extraction is the inverse of axis-angle rotation",
 "For every proper rotation the extracted angle lies in [0, pi], the extracted axis is a unit vector, and rotating by that angle about that axis gives back the rotation, also for half-turns and for the identity. The rotation-vector form equals axis times angle.",
 I,"for all proper rotations including half-turns and the identity",T+"half-turns split into several branches by axis direction",
 ["frames.cpp"],[("Rotation::GetRotAngle, GetRot","frames.cpp")],["KDL::Rotation::GetRotAngle"])
p("C06","Differences and increments are mutually inverse",
 "Adding to a value the difference between it and a target gives the target, for vectors, rotations, frames, twists, wrenches and scalars, with any non-zero time step. The difference of two frames is expressed in the base in which the frames are, at the first frame's origin, and first-order integration of a body twist at a given frequency rotates by the exact rotation of the angular part and translates by the linear part over one period, both expressed in the moving frame.",
 I,"for all pairs of values and all non-zero steps (relative rotations below pi)",T+"the time-step scaling and base change must hold for all pairs",
 ["frames.inl","frames.hpp","frames.cpp"],[("diff, addDelta, Frame::Integrate","frames.inl")],["KDL::diff","KDL::addDelta"])
p("C07","Vector norms, products and planar geometry are exact",
 "Vector norm, normalisation, dot and cross product satisfy their algebraic definitions for all vectors (tiny vectors below the threshold normalise to the documented default), and component setters/getters and plane conversions move exactly the named components. Planar vectors, rotations and frames form the planar rigid-motion group with matrix elements consistent with their action.",
 I,"for all vectors, angles and planar frames",T+"the norm is computed by case distinction on the largest component",
 ["frames.cpp","frames.inl","frames.hpp"],[("Vector::Norm/Normalize, Vector2, Rotation2, Frame2","frames.cpp")],["KDL::Vector","KDL::Vector2","KDL::Rotation2","KDL::Frame2"])
p("C08","Tolerance equality compares every component",
 "For every geometric, joint-space and inertia value type, Equal(a,b,eps) is true exactly when every component differs by less than (joint-space and matrix types: as documented) eps, is symmetric, and == / != agree with it at the library epsilon. Values with identical components are equal and hash identically.",
 I,"for all pairs of values and all eps > 0","tests compare a few equal or grossly different values; a component ignored by the comparison is seen only if values differ in that component alone",
 ["frames.inl","framevel.inl","frameacc.inl","jacobian.cpp","jntarray.cpp","utilities/utility.h"],[("Equal, operator==, std::hash specialisations","frames.inl")],["KDL::Equal"])
p("C09","Velocity-carrying geometry is exact first-order differentiation",
 "Every operation on velocity-carrying vectors, rotations, frames and twists yields as value the operation on the values, and as velocity the exact time derivative of that result along the motion described by its operands. This includes inverses, mixed operands without velocity, in-place rotations, normalisation and reference changes.",
 I,"for all values and velocities of the operands",T+"a wrong derivative term is hidden when its factor is zero or constant in the sample",
 ["framevel.inl","framevel.hpp"],[("VectorVel/RotationVel/FrameVel/TwistVel operators","framevel.inl")],["KDL::FrameVel"])
p("C10","Acceleration-carrying geometry is exact second-order differentiation",
 "Every operation on acceleration-carrying vectors, rotations, frames and twists yields value, first and second time derivative of the result exactly, for any motion of its operands. Inverses and mixed operands without derivatives are included.",
 I,"for all values, velocities and accelerations of the operands",T+"second-order cross terms are easy to drop unnoticed",
 ["frameacc.inl","frameacc.hpp"],[("VectorAcc/RotationAcc/FrameAcc/TwistAcc operators","frameacc.inl")],["KDL::FrameAcc"])
p("C11","Dual numbers propagate first and second derivatives exactly",
 "Arithmetic (binary, compound, scalar-mixed) and elementary functions on first- and second-order dual numbers return the exact value and the exact derivatives by the rules of calculus wherever the function is differentiable. Compound assignment gives the same result as the binary operator.",
 I,"for all values and derivatives in each function's domain","numerical tests use loose finite differences at a few points and do not cover compound operators",
 ["utilities/rall1d.h","utilities/rall2d.h"],[("Rall1d/Rall2d operators and functions","utilities/rall2d.h")],["KDL::Rall1d","KDL::Rall2d"])
p("C12","Joint motion: twist is the derivative of pose, with scale and offset",
 "For every joint type the pose at q is the elementary motion about the joint axis through the joint origin with magnitude scale*q+offset, and the twist at rate qdot is the time derivative of that pose. Fixed joints never move, and axis, origin, inertia, damping, stiffness and type name are reported as constructed.",
 IC,"for all joint types, axes, origins, scales, offsets, positions and rates",T+"tests rarely use scale, offset and arbitrary axes together",
 ["joint.cpp","joint.hpp"],[("Joint::pose, twist, JointAxis, JointOrigin","joint.cpp")],["KDL::Joint"])
p("C13","Segment pose and twist describe the tip of the moving link",
 "A segment's pose at zero joint position equals the tip frame it was built with, its pose at q is the joint motion followed by the fixed tip transform, and its twist is the velocity of the tip point with base-aligned axes for every q and qdot. Copies and assignments behave identically and inertia setters do not change kinematics.",
 IC,"for all joint types, tip frames, positions and rates",T+"the velocity reference point must be right for all configurations",
 ["segment.cpp","segment.hpp"],[("Segment::pose, twist, getFrameToTip","segment.cpp")],["KDL::Segment"])
p("C14","Chains keep their segments and joint counts through every edit",
 "After any sequence of segment additions, chain additions, copies and assignments (including self-assignment and self-addition), a chain holds exactly the added segments in order and its joint count equals its number of non-fixed joints. Copies are independent of the original.",
 ["histories","inputs"],"for all bounded sequences of edit operations and joint types","tests perform a single fixed construction sequence",
 ["chain.cpp","chain.hpp"],[("Chain::addSegment, addChain, operator=","chain.cpp")],["KDL::Chain"])
p("C15","Chain forward kinematics is the product of segment poses",
 "For every chain, joint position and segment number, the forward position solver returns the product of the segment poses up to that segment, each moving joint consuming exactly one entry of the joint vector in order, for single-frame and all-frames queries alike. Results do not depend on earlier calls.",
 ["inputs","configurations","histories"],"for all chains up to the stated size, all joint types and positions, all segment numbers",T+"fixed joints in between and partial chains are few in tests",
 ["chainfksolverpos_recursive.cpp"],[("JntToCart","chainfksolverpos_recursive.cpp")],["KDL::ChainFkSolverPos_recursive"])
p("C16","Chain velocity kinematics is the time derivative of position kinematics",
 "For every chain, position, rate and segment number, the forward velocity solver returns the position solver's frame together with its exact time derivative, and the same for all-frames queries. It equals the Jacobian applied to the rates.",
 IC,"for all chains up to the stated size, positions and rates",T+"finite differences in tests cannot separate small wrong terms",
 ["chainfksolvervel_recursive.cpp"],[("JntToCart","chainfksolvervel_recursive.cpp")],["KDL::ChainFkSolverVel_recursive"])
p("C17","Chain Jacobian is the derivative of forward kinematics",
 "Every column of the chain Jacobian is the partial derivative of the tip frame with respect to its joint, with the base frame's orientation and reference point at the tip of the requested segment; joints beyond that segment and locked joints do not contribute. Locking joints removes exactly their columns and keeps the others in order.",
 IC,"for all chains up to the stated size, positions, segment numbers and lock patterns",T+"lock patterns and partial chains are hardly tested",
 ["chainjnttojacsolver.cpp"],[("JntToJac, setLockedJoints","chainjnttojacsolver.cpp")],["KDL::ChainJntToJacSolver"])
p("C18","Jacobian base, reference-point and frame changes act column-wise as twists",
 "Changing base, reference point or frame of a Jacobian transforms each column exactly as the corresponding twist, in place and out of place alike, and refuses mismatched sizes without touching the destination. Column access, partial products with joint rates and size changes keep all other data intact.",
 IC,"for all Jacobians up to the stated number of columns and all transforms",T+"aliasing and size refusal are not sampled",
 ["jacobian.cpp","jacobian.hpp"],[("changeBase/RefPoint/RefFrame, MultiplyJacobian","jacobian.cpp")],["KDL::Jacobian"])
p("C19","Jacobian derivative is the time derivative of the Jacobian",
 "For each of the three supported representations (hybrid, body-fixed, inertial), the Jacobian-dot solver returns the exact time derivative of the Jacobian expressed in that representation for every position and rate, and its twist form equals that matrix times the rates. Locked joints drop out consistently.",
 IC,"for all chains up to the stated size, positions and rates and the three representations",T+"tests compare to coarse finite differences on random chains",
 ["chainjnttojacdotsolver.cpp"],[("JntToJacDot, getPartialDerivative*","chainjnttojacdotsolver.cpp")],["KDL::ChainJntToJacDotSolver"])
p("C20","Trees keep a consistent structure under every edit and extraction",
 "After any sequence of segment, chain and tree additions, copies and assignments, each segment has one parent, children lists match parents, counts are right, joint numbers are a permutation of 0..n-1, a refused segment addition changes nothing (a refused chain or tree addition keeps what fitted, consistently), existing joints keep their number, and copies number joints as the original. An extracted chain between any two segments describes their relative motion for all joint positions, in both directions, and a sub-tree extraction preserves the relative structure.",
 ["histories","configurations","inputs"],"for all bounded edit sequences over small trees, all pairs of segments, all joint positions","tests build a handful of fixed trees; joint order and reversed chains are checked in few shapes",
 ["tree.cpp","tree.hpp"],[("Tree::addSegment/addChain/addTree/getChain/getSubTree/operator=","tree.cpp")],["KDL::Tree"])
p("C21","Tree kinematics agrees with the kinematics of its branches",
 "For every tree, joint position and segment, tree forward kinematics equals chain forward kinematics along the path from the root, and the tree Jacobian equals that chain's Jacobian with columns placed at the tree's joint numbers and zeros elsewhere. Unknown segments and wrong sizes are refused with an error.",
 ["inputs","configurations","histories"],"for all trees up to the stated size and construction orders, joint types and positions",T+"construction order versus joint numbering is not varied",
 ["treefksolverpos_recursive.cpp","treejnttojacsolver.cpp"],[("JntToCart, JntToJac","treefksolverpos_recursive.cpp")],["KDL::TreeFkSolverPos_recursive","KDL::TreeJntToJacSolver"])
p("C22","Joint-space arrays and matrices compute element-wise, also in place",
 "Add, subtract, scale, divide and set-to-zero on joint arrays, joint arrays with velocity or acceleration and inertia matrices give the element-wise result (with product rules for derivatives), whether or not the destination is one of the operands. Copying, assigning and resizing keep the data that both sizes share as documented and sizes consistent.",
 IH,"for all sizes up to the bound, all values and aliasing patterns","tests use one size without aliasing",
 ["jntarray.cpp","jntarrayvel.cpp","jntarrayacc.cpp","jntspaceinertiamatrix.cpp"],[("Add/Subtract/Multiply/Divide/SetToZero","jntarrayvel.cpp")],["KDL::JntArray"])
p("C23","Inertia algebra preserves momentum and kinetic energy",
 "Rigid-body, rotational and articulated inertias map twists to momenta so that changing rotation, frame or reference point commutes with the corresponding change of twist and momentum and leaves kinetic energy invariant. Sums and scalings are linear, mass, centre of gravity and rotational inertia are reported as constructed, and articulated inertias built from rigid ones agree with them.",
 I,"for all masses, centres of gravity, inertias, frames and twists",T+"Steiner terms cancel for centred inertias",
 ["rigidbodyinertia.cpp","rotationalinertia.cpp","articulatedbodyinertia.cpp"],[("operator* (frame, rotation, twist), RefPoint","rigidbodyinertia.cpp")],["KDL::RigidBodyInertia","KDL::ArticulatedBodyInertia"])
p("C24","Joint-space inertia, Coriolis and gravity terms describe the same system",
 "For every chain the joint-space inertia matrix is symmetric and reproduces the total kinetic energy of the links plus rotor inertias for all rates, the gravity term is the gradient of potential energy, and the Coriolis term is the velocity-dependent part of the equations of motion derived from that energy. The three terms sum to the inverse dynamics torque.",
 IC,"for all chains up to the stated size, link inertias, positions, rates and gravity vectors",T+"energy identities must hold everywhere",
 ["chaindynparam.cpp"],[("JntToMass, JntToCoriolis, JntToGravity","chaindynparam.cpp")],["KDL::ChainDynParam"])
p("C25","Inverse dynamics balances power for every motion",
 "For every chain the recursive Newton-Euler torques equal inertia times acceleration plus Coriolis and gravity torques minus the transposed Jacobian images of the external wrenches acting on each link. The torques for a tree without branching equal those of the chain, and branches superimpose.",
 IC,"for all chains and small trees up to the stated size, motions and external wrenches",T+"external wrench frames are easy to confuse",
 ["chainidsolver_recursive_newton_euler.cpp","treeidsolver_recursive_newton_euler.cpp"],[("CartToJnt","chainidsolver_recursive_newton_euler.cpp")],["KDL::ChainIdSolver_RNE","KDL::TreeIdSolver_RNE"])
p("C26","Forward dynamics is the inverse of inverse dynamics",
 "Whenever the inertia matrix is regular, the accelerations returned by the forward dynamics solver reproduce the applied torques when fed to inverse dynamics with the same state and external wrenches. Its fixed-step integrator advances the state by the classical fourth-order Runge-Kutta formula.",
 IC,"for all chains up to the stated size, states, torques and wrenches",T+"tests check one arm at few states",
 ["chainfdsolver_recursive_newton_euler.cpp","utilities/ldl_solver_eigen.cpp"],[("CartToJnt, RK4Integrator","chainfdsolver_recursive_newton_euler.cpp")],["KDL::ChainFdSolver_RNE"])
p("C27","Constrained hybrid dynamics satisfies constraints and equations of motion",
 "For every chain of moving joints and every set of independent tip constraints, the hybrid dynamics solver returns accelerations that meet the commanded constraint accelerations and satisfy the equations of motion under the feed-forward torques, the external wrenches and the returned constraint-force magnitudes acting along the unit constraint forces at the tip. With no active constraint forces it agrees with unconstrained forward dynamics.",
 IC,"for all chains up to the stated size, states, constraints and torques",T+"tests check fixed arms with hand-picked constraints",
 ["chainhdsolver_vereshchagin.cpp"],[("CartToJnt","chainhdsolver_vereshchagin.cpp")],["KDL::ChainHdSolver_Vereshchagin"])
p("C28","Matrix decompositions reconstruct their input",
 "The LDL solver returns x with A x = v and factors with L D L^T = A for every symmetric matrix whose leading pivots are all non-zero, and the singular value routines return factors with orthonormal columns, non-negative ordered-as-documented singular values and U S V^T = A whenever they report success. Failure to converge is reported as an error, never as success.",
 I,"for all matrices of the stated small shapes and sparsity patterns",T+"tests check a few numeric matrices",
 ["utilities/ldl_solver_eigen.cpp","utilities/svd_HH.cpp","utilities/svd_eigen_HH.cpp","utilities/svd_eigen_Macie.hpp"],[("ldl_solver_eigen, SVD_HH::calculate, svd_eigen_HH, svd_eigen_Macie","utilities/svd_eigen_HH.cpp")],["KDL::svd_eigen_HH"])
p("C29","Velocity inverse kinematics returns the documented least-squares solution",
 "The pseudo-inverse, weighted damped and null-space-optimising velocity solvers return joint rates that achieve the requested twist wherever the Jacobian allows it, of minimal (weighted, damped) norm, with singular directions below the threshold dropped and reported as degraded. Secondary null-space motion never disturbs the requested twist.",
 IC,"for all requested twists, positions and symbolic singular values on the stated chain families",T+"near-singular behaviour depends on threshold branches tests do not hit",
 ["chainiksolvervel_pinv.cpp","chainiksolvervel_wdls.cpp","chainiksolvervel_pinv_nso.cpp","chainiksolvervel_pinv_givens.cpp"],[("CartToJnt","chainiksolvervel_wdls.cpp")],["KDL::ChainIkSolverVel"])
p("C30","Position inverse kinematics never reports success away from the target",
 "For whatever forward and velocity solvers it is given, the Newton-Raphson position solvers return success only if the forward kinematics of the returned joint vector is within the tolerance of the target, stop within the iteration limit, report sub-solver failures, and with joint limits return positions inside the limits. The returned code and the last-error query agree.",
 ["inputs","fault_sequences","configurations"],"for all targets, initial guesses, limits, sub-solver answers and failures within the iteration bound","tests only use well-behaved sub-solvers and reachable targets",
 ["chainiksolverpos_nr.cpp","chainiksolverpos_nr_jl.cpp"],[("CartToJnt","chainiksolverpos_nr_jl.cpp")],["KDL::ChainIkSolverPos_NR","KDL::ChainIkSolverPos_NR_JL"])
p("C31","Levenberg-Marquardt IK works on the true kinematics of its chain",
 "The pose and Jacobian that the Levenberg-Marquardt position solver computes internally equal the chain's forward kinematics and Jacobian for every chain and position, including fixed joints, scales and offsets. An initial guess that already reaches the target is returned unchanged with success; otherwise the result is never further from the target than the guess, success means within tolerance, and the reported differences describe the returned position.",
 IC,"for all chains up to the stated size and positions",T+"internal kinematics is re-implemented separately from the solvers",
 ["chainiksolverpos_lma.cpp"],[("compute_fwdpos, compute_jacobian, CartToJnt","chainiksolverpos_lma.cpp")],["KDL::ChainIkSolverPos_LMA"])
p("C32","Tree inverse kinematics respects joint, joint-rate and task-rate limits",
 "The online tree position solver moves at most by the configured joint rates in one call, keeps the direction of the joint motion, never asks for an end-point velocity above the configured task-space limits, and always returns joint positions inside the limits; the iterating variant stays inside joint limits and reports success only at the target. Unknown end points and mismatched sizes are refused.",
 ["inputs","configurations","fault_sequences"],"for all requests, limits and sub-solver answers on small trees","tests do not exercise the rate limits",
 ["treeiksolverpos_online.cpp","treeiksolverpos_nr_jl.cpp","treeiksolvervel_wdls.cpp"],[("CartToJnt, enforceJointVelLimits, enforceCartVelLimits","treeiksolverpos_online.cpp")],["KDL::TreeIkSolverPos_Online"])
p("C33","Solvers refuse bad sizes and stale structures with the documented error",
 "Every chain solver called with wrongly sized arguments, an out-of-range segment number, or after the number of joints (for dynamics also of segments) of its chain changed returns the documented error code, remembers it as the latest error, and neither touches memory out of bounds nor leaves partial output (outputs stay untouched, or are reset to identity or zero). Solvers that keep no chain-sized data use the changed chain at once. After the update call it accepts the new sizes and computes as a freshly built solver would, and every documented error code has a description.",
 ["histories","configurations"],"for all argument size combinations within the bound and all bounded call histories","tests try a few mismatches for a few solvers",
 ["solveri.hpp","chainfksolverpos_recursive.cpp","chainjnttojacsolver.cpp","chainiksolvervel_wdls.cpp","chaindynparam.cpp"],[("size checks, updateInternalDataStructures, error","solveri.hpp")],["KDL::SolverI"])
p("C34","Trapezoidal velocity profile reaches its goal within its limits",
 "For every start, goal, positive velocity and acceleration limit, the trapezoidal profile starts at the start, ends at the goal, has continuous position and velocity with velocity and acceleration the exact derivatives, never exceeds its limits and never leaves the segment between start and goal. A requested duration is met exactly whenever it is not shorter than the fastest one, otherwise the fastest profile is used.",
 I,"for all start/goal positions, positive limits, durations and times",T+"short distances, negative direction and stretched profiles are separate branches",
 ["velocityprofile_trap.cpp"],[("SetProfile, SetProfileDuration, SetProfileVelocity, Pos/Vel/Acc","velocityprofile_trap.cpp")],["KDL::VelocityProfile_Trap"])
p("C35","Half-trapezoidal velocity profile reaches its goal within its limits",
 "For every start and goal and positive limits, the half-trapezoidal profile begins (or ends) at rest, reaches the goal exactly at its duration, is continuous in position with velocity and acceleration its exact derivatives, and never exceeds the limits. Prolonging keeps start and goal, meets the requested duration and never moves outside the segment; a duration that is too short gives the fastest profile.",
 I,"for all start/goal positions, positive limits, durations and times",T+"stretched and short profiles are separate branches",
 ["velocityprofile_traphalf.cpp"],[("SetProfile, SetProfileDuration, PlanProfile1/2","velocityprofile_traphalf.cpp")],["KDL::VelocityProfile_TrapHalf"])
p("C36","Rectangular, step and spline profiles meet their boundary conditions",
 "Rectangular, Dirac and spline velocity profiles start and end at the requested positions (the splines also with the requested velocities and accelerations) and their velocity and acceleration, where the profile defines one, are the derivatives of position. The rectangular profile never exceeds its maximum velocity in either direction and a prescribed duration is met unless that would exceed it.",
 I,"for all boundary conditions, limits, durations and times",T+"negative direction and zero duration are separate branches",
 ["velocityprofile_rect.cpp","velocityprofile_dirac.cpp","velocityprofile_spline.cpp"],[("SetProfile, SetProfileDuration, Pos/Vel/Acc","velocityprofile_spline.cpp")],["KDL::VelocityProfile"])
p("C37","Line and circle paths run from start to end with consistent derivatives",
 "Line, point and circle paths start at the start frame and end at the end frame with a path length covering both translation and scaled rotation; positions lie on the line or circle for every path parameter, and velocity and acceleration are the first and second derivatives of position with respect to time. Length-to-parameter conversion maps travelled length to the parameter at which it is reached.",
 I,"for all start/end frames, radii, equivalent radii, parameters and rates",T+"rotation- and translation-dominated cases are separate branches",
 ["path_line.cpp","path_circle.cpp","path_point.cpp"],[("constructors, Pos/Vel/Acc/LengthToS","path_circle.cpp")],["KDL::Path"])
p("C38","Composite, cyclic and rounded paths stitch their parts seamlessly",
 "A composite path is the concatenation of its parts: its length is the sum, every parameter is mapped to the right part and inner parameter independent of query history, and position, velocity and acceleration are those of that part; a cyclic path repeats its base path. A rounded composite is continuous in position and tangent direction, starts and ends at the first and last point, keeps the given radius and refuses infeasible points as documented.",
 IH,"for all parameters, query orders and part geometries within the bound","tests use one shape and monotone queries",
 ["path_composite.cpp","path_cyclic_closed.cpp","path_roundedcomposite.cpp"],[("Lookup, Add, Finish","path_composite.cpp")],["KDL::Path_Composite"])
p("C39","Rotational interpolation turns about one axis from start to end",
 "Single-axis interpolation equals the start rotation at angle zero and the end rotation at the reported angle, which lies in [0, pi], and in between rotates about one fixed axis with angular velocity and acceleration equal to the derivatives of the orientation.",
 I,"for all start and end rotations, angles and rates",T+"derivatives are not tested",
 ["rotational_interpolation_sa.cpp"],[("SetStartEnd, Pos, Vel, Acc","rotational_interpolation_sa.cpp")],["KDL::RotationalInterpolation_SingleAxis"])
p("C40","Trajectories compose path and profile, also end to end",
 "A trajectory segment's pose, twist and acceleration at any time are those of its path at the profile's position, velocity and acceleration; stationary trajectories do not move; a composite plays its parts one after another, holding the first pose before and the last pose after. Total duration is the sum of the parts, also after clearing and refilling.",
 IH,"for all times, parts and edit histories within the bound","tests do not cover trajectories beyond an example",
 ["trajectory_segment.cpp","trajectory_composite.cpp","trajectory_stationary.hpp"],[("Pos/Vel/Acc, Add, Destroy","trajectory_composite.cpp")],["KDL::Trajectory"])
p("C41","Clones behave like their originals",
 "Cloning any velocity profile, path or trajectory yields an independent object with the same duration or length and the same position, velocity and acceleration at every time or parameter.",
 IC,"for all parameters of every cloneable class and all query times","tests clone nothing",
 ["velocityprofile_trap.cpp","velocityprofile_traphalf.cpp","path_circle.cpp","path_line.cpp","trajectory_segment.hpp"],[("Clone","path_circle.cpp")],["Clone()"])
p("C42","Text output of values reads back unchanged and bad text is refused",
 "Writing any vector, rotation, frame, twist, wrench or planar value and reading it back yields the same value, and the documented keyword forms (RPY, EULERZYX, EULERZYZ, ROT, DH, ZERO, IDENTITY) build the documented value with angles in degrees. Malformed text raises a library error and never writes outside the given buffer; paths and profiles written to text read back with the same behaviour.",
 I,"for all values and bounded malformed texts","tests read back a few literals",
 ["frames_io.cpp","utilities/utility_io.cxx","path.cpp","velocityprofile.cpp"],[("operator<<, operator>>, Eat*, EatWord","utilities/utility_io.cxx")],["operator>>"])
p("C43","External wrench estimation tracks the true momentum balance",
 "With exact state and torque measurements, the external joint-torque estimate follows the momentum balance of the chain's own dynamics: after initialisation with the current state its update is the discrete first-order observer driven by measured torque, gravity, Coriolis and momentum change, and the estimated tip wrench is the least-squares image of that torque through the tip Jacobian with the configured filter. Size mismatches are refused.",
 ["inputs","histories"],"for all states, measurements and gains within the call bound on the stated chains","tests check convergence on one simulated arm",
 ["chainexternalwrenchestimator.cpp"],[("JntToExtWrench, setInitialMomentum","chainexternalwrenchestimator.cpp")],["KDL::ChainExternalWrenchEstimator"])
p("C44","Python bindings compute what the C++ library computes",
 "Every operation exposed to Python on vectors, rotations, frames, twists, wrenches and their velocity variants returns what the C++ operation returns for the same operands; indexing reads and writes the named element and rejects indices outside the value's range; copies are independent; pickling round-trips.",
 I,"for all operand values and all indices within the bound","the Python tests use a few literal values",
 ["python_orocos_kdl/PyKDL/frames.cpp","python_orocos_kdl/PyKDL/framevel.cpp"],[("init_frames","python_orocos_kdl/PyKDL/frames.cpp"),("init_framevel","python_orocos_kdl/PyKDL/framevel.cpp")],["PyKDL"])
p("C45","Python chains, trees and solvers compute what the C++ library computes",
 "Every operation exposed to Python on joints, inertias, segments, chains, trees, joint arrays, Jacobians, joint-space inertias and on the kinematics and dynamics solvers returns what the C++ operation returns for the same operands, and fills the output arguments it is given. Indexing an array, Jacobian or inertia reads and writes the named element and rejects indices outside the size. A solver keeps the chain, tree and sub-solvers it refers to alive.",
 ["inputs","histories"],"for all operand values, states and indices within the bound","the Python tests use a few literal values on one arm",
 ["python_orocos_kdl/PyKDL/kinfam.cpp","python_orocos_kdl/PyKDL/dynamics.cpp"],[("init_kinfam","python_orocos_kdl/PyKDL/kinfam.cpp"),("init_dynamics","python_orocos_kdl/PyKDL/dynamics.cpp")],["PyKDL.Chain","PyKDL.ChainFkSolverPos_recursive","PyKDL.ChainDynParam"])
if __name__=="__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
        for r in P: f.write(json.dumps(r)+"\n")
    import jsonschema
    sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for r in P: jsonschema.validate(r,sch)
    print(len(P),"properties")
