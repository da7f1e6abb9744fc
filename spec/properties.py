#!/usr/bin/env python3
"""Single source of truth for properties.jsonl and MANIFEST.json (run: python3 spec/properties.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = "include/state-observation/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, check, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, check=check, na=na))

prop("C01", "The linear Kalman filter computes the optimal recursive estimate",
 "For every linear system, noise covariance, initial estimate and sequence of inputs and measurements, the state estimate and its covariance are those of the textbook Kalman recursion (prediction, innovation, gain, correction), including when matrices or covariances are changed between steps, when there is no input, and when the input feeds directly into the output. Reported predictions, innovations and simulated measurements are the ones of that same recursion.",
 ["inputs", "histories", "configurations"], "all state/measurement/input sizes, all matrices (also time varying), all covariances, all histories",
 "the unit test simulates one 4-state/3-output system per flavour and only checks that the final error is small; a wrong gain, swapped noise matrix or wrong input index usually still converges",
 ["src/kalman-filter-base.cpp", "src/linear-kalman-filter.cpp", INC+"observer/kalman-filter-base.hpp", INC+"observer/linear-kalman-filter.hpp"],
 [("one estimation step", "src/kalman-filter-base.cpp:oneStepEstimation_"), ("linear prediction", "src/linear-kalman-filter.cpp:prediction_, simulateSensor_")],
 ["getEstimatedState", "getStateCovariance", "getInnovation", "getLastPrediction", "getLastPredictedMeasurement", "getSimulatedMeasurement"],
 "differential PBT against an independent long-double Kalman recursion over generated systems and histories")

prop("C02", "Kalman covariances stay valid and measurements never add uncertainty",
 "After any history of predictions and corrections, the covariance reported by a linear or extended Kalman filter is symmetric and positive semi-definite. The corrected covariance never exceeds the predicted one, and correcting with a more precise sensor never gives a larger covariance.",
 ["inputs", "histories", "configurations"], "all systems (stable or unstable, observable or not), all valid noise covariances, including badly scaled ones, all history lengths",
 "tests never look at the covariance at all",
 ["src/kalman-filter-base.cpp", INC+"observer/kalman-filter-base.hpp"],
 [("covariance update and symmetrisation", "src/kalman-filter-base.cpp:oneStepEstimation_")],
 ["getStateCovariance"],
 "invariant PBT over generated filter histories (symmetry, eigenvalues, Loewner order)")

prop("C03", "The extended Kalman filter linearises and corrects any nonlinear model",
 "For every differentiable process and sensor model and every history, the extended Kalman filter predicts through the nonlinear model, computes the innovation against the nonlinear sensor model, corrects with the supplied Jacobians, and reports these same quantities. This also holds for states and measurements living on manifolds, where sums and differences are those supplied by the user and covariances are expressed in the tangent space. No value computed for an earlier state, input, model or time is ever reused after it changed.",
 ["inputs", "histories", "configurations"], "all models, sizes (vector and tangent), arithmetics, settings of direct input feedthrough, and histories of estimation, state override, reset and queries",
 "tests run one contracting random model and compare the final error with a threshold; caching errors, sign errors of the group operations and time index errors are not visible there",
 ["src/extended-kalman-filter.cpp", "src/kalman-filter-base.cpp", "src/state-vector-arithmetics.cpp", INC+"observer/extended-kalman-filter.hpp"],
 [("prediction cache", "src/extended-kalman-filter.cpp:prediction_, predictSensor_"), ("tangent-space correction", "src/kalman-filter-base.cpp:oneStepEstimation_")],
 ["getEstimatedState", "getStateCovariance", "updateStatePrediction", "updateStateAndMeasurementPrediction", "getInnovation", "getSimulatedMeasurement"],
 "stateful differential PBT against a reference EKF with generated nonlinear models and manifold arithmetics")

prop("C04", "Finite-difference Jacobians approximate the true derivatives of the model",
 "For every differentiable model, linearisation point and step, the process and sensor Jacobians computed by finite differences are the derivatives of the model at the current estimate (process) and at the predicted state (sensor), with columns and rows expressed in the tangent spaces of state and measurement. Computing them never alters later estimates.",
 ["inputs", "configurations"], "all smooth models, points, steps and state/measurement arithmetics, including sizes that differ from those of the tangent space",
 "no test compares a finite-difference Jacobian with a derivative",
 ["src/extended-kalman-filter.cpp", INC+"observer/extended-kalman-filter.hpp"],
 [("finite differences", "src/extended-kalman-filter.cpp:getAMatrixFD, getCMatrixFD")],
 ["getAMatrixFD", "getCMatrixFD"],
 "differential PBT against the analytic derivative of generated models")

prop("C05", "Observers consume measurements and inputs at the right time, exactly once",
 "For every history of storing states, measurements and inputs (at explicit times or appended), clearing, and asking for estimates, an observer holds exactly the not yet consumed data with their times, and an estimate asked at time k uses every measurement up to k and the input of each step exactly once. Asking for estimates one by one, or once at the end, or through the one-call batch interface, gives the same result. Going back in time forgets what was stored.",
 ["histories", "inputs"], "all sequences of public operations on an observer, all sizes",
 "tests use a single pattern: one measurement and one input per step, estimate immediately",
 ["src/zero-delay-observer.cpp", "src/observer-base.cpp", INC+"observer/zero-delay-observer.hpp", INC+"observer/observer-base.hpp"],
 [("queues of measurements and inputs", "src/zero-delay-observer.cpp:getEstimatedState, setMeasurement, setInput"), ("batch estimation", "src/zero-delay-observer.cpp:estimateState, estimateState")],
 ["getEstimatedState", "estimateState", "estimateState", "getMeasurementTime", "getInputTime", "getMeasurementsNumber", "getInputsNumber", "getCurrentTime"],
 "stateful model-based PBT (queue model + recording filter)")

prop("C06", "Time-indexed arrays behave as a contiguous map from time to value",
 "For every sequence of operations, a time-indexed array of vectors or matrices holds exactly the values last stored at each time of a contiguous range: storing, appending, inserting, popping, truncating, re-indexing and clearing change the range and values exactly as documented, and every query (size, first, last and next index, membership, value) agrees with that. A single time-indexed value is set, read, reset and re-dated the same way.",
 ["histories", "inputs"], "all sequences of container operations with all times",
 "no test exercises the containers other than by appending",
 ["src/definitions.cpp", INC+"tools/definitions.hpp", INC+"tools/definitions.hxx"],
 [("deque plus first index", INC+"tools/definitions.hxx:IndexedMatrixArrayT")],
 ["IndexedVectorArray", "IndexedMatrixArray", "IndexedMatrix", "IndexedVector", "CheckedItem"],
 "stateful model-based PBT against a std::map model")

prop("C07", "Logs written to files are read back with the same times and values",
 "For every array of vectors or matrices, writing it to a file and reading it back gives the same number of records, the same time indexes and the same values up to the printed precision; the same holds with the clearing and appending options and for matrices written as rows. A logger records, for every tracked variable and every tick, the value the variable had then, keeps it when an address is updated, and saves exactly those records.",
 ["inputs", "histories"], "all arrays (lengths, sizes, first indexes, values) and options; all sequences of logger operations",
 "no test writes or logs anything; reading is only exercised on three fixed input files",
 ["src/definitions.cpp", "src/logger.cpp", INC+"tools/definitions.hxx", INC+"tools/logger.hxx", INC+"tools/logger.hpp"],
 [("text serialisation", INC+"tools/definitions.hxx:writeInFile, readVectorsFromFile"), ("typed variable log", "src/logger.cpp:update_, save")],
 ["writeInFile", "readVectorsFromFile", "readFromFile", "Logger"],
 "round-trip and model-based PBT in a scratch directory")

prop("C08", "Rotation representations convert into each other without changing rotation",
 "For every rotation, converting between rotation vector, angle-axis, quaternion, rotation matrix, roll-pitch-yaw and homogeneous transform, in any chain, yields the same rotation, with unit quaternions and orthonormal matrices. Regularising a rotation vector keeps its rotation and brings its norm back to at most pi whenever it is close to a full turn or beyond.",
 ["inputs"], "all rotations, including the identity, tiny angles, half-turns and large multiples of a turn; all chains of conversions",
 "tests convert two hundred random rotations, never near the identity, a half-turn or beyond",
 [INC+"tools/rigid-body-kinematics.hpp", INC+"tools/rigid-body-kinematics.hxx"],
 [("conversion functions", INC+"tools/rigid-body-kinematics.hxx")],
 ["kine conversion functions"],
 "round-trip PBT over chains of conversions against an independent Rodrigues implementation")

prop("C09", "An orientation object is one rotation, whatever representation it holds",
 "For every sequence of operations on orientation objects built from any representation, every accessor and operation (matrix, quaternion, angle-axis, vector, roll-pitch-yaw, product, inverse, application to vectors, integration, differentiation, assignment) gives the result for the one rotation the object stands for, independently of which representations it happens to have cached. Composition and inversion obey the group laws and integrating the difference of two orientations from the first gives the second.",
 ["histories", "inputs"], "all sequences of constructions, assignments, in-place products, integrations and reads over several objects",
 "tests check each operation from one or two representations, on fresh objects",
 [INC+"tools/rigid-body-kinematics.hpp", INC+"tools/rigid-body-kinematics.hxx"],
 [("lazy dual representation", INC+"tools/rigid-body-kinematics.hxx:Orientation")],
 ["kine::Orientation"],
 "stateful model-based PBT against plain 3x3 rotation matrices")

prop("C10", "Composition and inversion of frame kinematics are those of moving frames",
 "For every pair of moving frames described by position, orientation, velocities and accelerations, composing them gives the pose and the exact time derivatives of the composed motion, and inverting gives those of the inverse motion. Composition is associative, composing with the inverse gives the identity at rest, and quantities that are not provided are neither invented nor lost.",
 ["inputs", "configurations"], "all kinematics and all subsets of provided quantities",
 "tests check a fixed product/inverse identity on random full kinematics, which wrong velocity or acceleration terms can satisfy together",
 [INC+"tools/rigid-body-kinematics.hpp", INC+"tools/rigid-body-kinematics.hxx"],
 [("composition and inverse", INC+"tools/rigid-body-kinematics.hxx:Kinematics::operator*, getInverse, setToProductNoAlias")],
 ["kine::Kinematics"],
 "differential PBT against numerically differentiated screw motions and an independent matrix formula, plus group-law metamorphic checks")

prop("C11", "Integrating or updating kinematics over a time step follows the motion",
 "For every kinematics and time step, integration gives the constant-acceleration motion over that step for every quantity that is available, and leaves the others untouched. Updating with new partial information yields every requested quantity, taken from the new values when present and otherwise deduced from the previous ones by integration or finite differences consistent with the time step.",
 ["inputs", "configurations"], "all kinematics, time steps, and all pairs of sets of provided and requested quantities",
 "the update function is only executed with full information in tests, leaving nearly all of its branches unexecuted",
 [INC+"tools/rigid-body-kinematics.hxx", INC+"tools/rigid-body-kinematics.hpp"],
 [("integration", INC+"tools/rigid-body-kinematics.hxx:Kinematics::integrate"), ("case analysis of available quantities", INC+"tools/rigid-body-kinematics.hxx:Kinematics::update")],
 ["Kinematics::integrate", "Kinematics::update", "kine::integrateKinematics"],
 "reference-model PBT over all flag combinations with generated motions")

prop("C12", "Kinematics survive conversion to and from vectors with partial content",
 "For every kinematics and every selection of components, converting to a vector and back restores the selected components exactly and marks exactly those as present, with the documented layout. Resetting, copying and replacing never leave stale components behind. The printed text shows exactly the components that are present.",
 ["inputs", "configurations", "histories"], "all subsets of components, all values, all sequences of copies and resets",
 "one random full-state round trip is tested",
 [INC+"tools/rigid-body-kinematics.hxx", INC+"tools/rigid-body-kinematics.hpp", INC+"tools/definitions.hpp"],
 [("flagged serialisation", INC+"tools/rigid-body-kinematics.hxx:Kinematics::toVector, fromVector")],
 ["Kinematics::toVector", "Kinematics::fromVector", "Kinematics::reset", "Kinematics::setZero"],
 "round-trip PBT over flag subsets")

prop("C13", "Tilt and yaw can be split and merged for every orientation",
 "For every pair of orientations, merging the tilt of the first with the heading of the second gives a rotation whose tilt is exactly the first one's and whose heading agrees with the second, without singularity for any orientation, and merging an orientation with itself gives it back. The heading extracted from an orientation is the angle by which turning about the vertical changes it.",
 ["inputs"], "all rotations, including upside down, pitch of a quarter turn, and all reference axes",
 "tests check random rotations, which almost never come near the singular configurations",
 [INC+"tools/rigid-body-kinematics.hpp", INC+"tools/rigid-body-kinematics.hxx"],
 [("axis-agnostic merge", INC+"tools/rigid-body-kinematics.hxx:mergeTiltWithYaw, mergeTiltWithYawAxisAgnostic, mergeRoll1Pitch1WithYaw2, rotationMatrixToYaw")],
 ["kine::mergeTiltWithYaw*", "kine::rotationMatrixToYaw*"],
 "metamorphic and validity PBT with generators aimed at the singular sets")

prop("C14", "Rotation algebra helpers satisfy their defining identities",
 "For all inputs the rigid-body helpers satisfy the identities that define them: cross-product matrices, squares and inverses; derivatives of rotated vectors; homogeneous matrix inversion and vector conversion; angular velocity recovered from two rotations; transport of a velocity; recognition and orthonormalisation of rotation matrices; reconstruction of a trajectory from poses.",
 ["inputs"], "all vectors, rotations, time steps and trajectories",
 "most of these helpers are not called by any test",
 [INC+"tools/rigid-body-kinematics.hpp", INC+"tools/rigid-body-kinematics.hxx"],
 [("free functions", INC+"tools/rigid-body-kinematics.hxx")],
 ["kine free functions"],
 "identity and finite-difference PBT")

prop("C15", "The simulator reproduces the model's trajectory for every query order",
 "For every system model, initial state and input sequence, the simulated states and measurements are those obtained by applying the process and sensor models step by step with the input in force at each time, whatever the order and repetition of simulation and query calls. Overriding a state forgets exactly the results after it, and an input given for a time not yet simulated, also when it replaces an earlier one, is the one used from then on.",
 ["histories", "inputs"], "all models, input sequences (dense or sparse in time) and orders of simulation, query and override",
 "tests simulate one dense trajectory forward",
 ["src/dynamical-system-simulator.cpp", "src/dynamical-system-functor-base.cpp", INC+"dynamical-system/dynamical-system-simulator.hpp"],
 [("trajectory memo", "src/dynamical-system-simulator.cpp:simulateDynamics, getState, getMeasurement")],
 ["DynamicalSystemSimulator"],
 "stateful model-based PBT against a direct fold of the model")

prop("C16", "Simulated inertial and magnetic sensors output the physical quantities",
 "For every orientation, acceleration and angular velocity, the simulated accelerometer gives specific force in the sensor frame, the gyrometer the angular velocity in the sensor frame and the magnetometer the magnetic field in the sensor frame, whether the orientation is given as a quaternion or a matrix, followed by any concatenated extra measurements. Noise is added once per time instant and repeated reads at that instant return the same value.",
 ["inputs", "configurations", "histories"], "all states, both orientation formats, all concatenation sizes, with and without noise, all read sequences",
 "sensors are only reached through estimators that are themselves compared with loose thresholds",
 ["src/accelerometer-gyrometer.cpp", "src/accelerometer-gyrometer-magnetometer.cpp", "src/algebraic-sensor.cpp", "src/sensor-base.cpp", "src/linear-acceleration.cpp", "src/rotation-velocity.cpp", "src/magnetic-field.cpp"],
 [("sensor algorithms", "src/linear-acceleration.cpp, src/rotation-velocity.cpp, src/magnetic-field.cpp"), ("state, noise and time memo", "src/algebraic-sensor.cpp")],
 ["AccelerometerGyrometer", "AccelerometerGyrometerMagnetometer"],
 "differential PBT with stateful read sequences")

prop("C17", "Generated noise has the requested distribution",
 "For every requested bias and covariance (also singular), the simulated Gaussian noise added to a vector has that mean and that covariance, and does so for vectors, matrices and state vectors with their own sum operation. Noise never leaks into components with zero variance.",
 ["inputs", "configurations"], "all sizes, biases and covariances",
 "no test looks at the distribution of the noise",
 ["src/gaussian-white-noise.cpp", "src/probability-law-simulation.cpp", INC+"tools/probability-law-simulation.hxx", INC+"noise/gaussian-white-noise.hpp"],
 [("covariance factor", "src/gaussian-white-noise.cpp:setCovarianceMatrix, getNoisy")],
 ["GaussianWhiteNoise", "ProbabilityLawSimulation"],
 "statistical PBT: moments of large generated samples against 8-sigma acceptance bands, exact zero checks on noiseless directions")

prop("C18", "IMU system models integrate motion, predict sensors, and linearise rightly",
 "For every state, input and sampling period, the system models (IMU plain, with magnetometer and multiplicative, the fixed-contact models of flexibility, and the elastic inverted pendulum) return the state after the sampling period under the modelled motion, and the measurement the sensors would give in that state including contact constraints. Where a model provides Jacobians or a manifold sum and difference, the Jacobians are the derivatives of the model and difference is the inverse of sum.",
 ["inputs", "configurations"], "all states, inputs, sampling periods, contact sets",
 "models are only used as both simulator and estimator in the tests, so a wrong model agrees with itself",
 ["src/imu-dynamical-system.cpp", "src/imu-magnetometer-dynamical-system.cpp", "src/imu-mltpctive-dynamical-system.cpp", "src/imu-fixed-contact-dynamical-system.cpp", "src/stable-imu-fixed-contact-dynamical-system.cpp", "src/bidim-elastic-inv-pendulum-dyn-sys.cpp"],
 [("process and sensor models", "src/imu-*.cpp:stateDynamics, measureDynamics"), ("analytic Jacobians", "src/imu-mltpctive-dynamical-system.cpp:getAMatrix, getCMatrix")],
 ["stateDynamics", "measureDynamics", "getAMatrix", "getCMatrix", "stateSum", "stateDifference"],
 "differential PBT against an independent model and numerical derivatives")

prop("C19", "The biped DCM estimator computes the optimal unbiased DCM and its bias",
 "For every sequence of noisy centre-of-mass-based divergent-component measurements, zero-moment-point measurements and robot headings, the estimator's divergent component and bias are those of the Kalman filter of the documented model, whatever way parameters were given (construction, setters, reset) and however often results are read. Turning the whole scenario about the vertical, or exchanging the horizontal axes, turns the estimate likewise.",
 ["inputs", "histories", "configurations"], "all parameters, all histories of inputs, updates, reads, parameter changes, and heading changes",
 "the test runs one scenario per class and checks the final bias error against a threshold",
 ["src/lipm-dcm-estimator.cpp", "src/unidim-lipm-dcm-estimator.cpp", INC+"dynamics-estimators/lipm-dcm-estimator.hpp", INC+"dynamics-estimators/unidim-lipm-dcm-estimator.hpp"],
 [("filter matrices", "src/lipm-dcm-estimator.cpp:updateMatricesABQ_"), ("local/global bias frames", "src/lipm-dcm-estimator.cpp:setInputs, update")],
 ["getUnbiasedDCM", "getBias", "getLocalBias"],
 "stateful differential PBT against a reference filter and metamorphic rotation/axis relations")

prop("C20", "Limits on the estimated DCM bias are always respected",
 "When limits are set on the bias in the robot frame, the bias estimate lies within them along each limited axis after every update, axes without limit are not altered, and the part of the estimate removed from the bias is returned to the divergent component so that their sum is unchanged. Without limits the estimate is unaffected.",
 ["inputs", "histories", "configurations"], "all limit pairs (none, one axis, both), headings, measurement histories",
 "no test sets a limit on one axis, nor with a robot that turns",
 ["src/lipm-dcm-estimator.cpp", INC+"dynamics-estimators/lipm-dcm-estimator.hpp"],
 [("clamping", "src/lipm-dcm-estimator.cpp:update, clampBias")],
 ["setBiasLimit", "update", "getLocalBias", "getUnbiasedDCM"],
 "invariant and differential PBT over histories with limits")

prop("C21", "The tilt estimator follows its observer equation and recovers the tilt",
 "For every initial state, gains, sensor placement and measurement history, each step of the tilt estimator is the documented complementary-observer step, keeps the estimated tilt a unit vector and does not depend on how often results are read. With measurements consistent with a motion, the true state is a fixed point of the error dynamics up to the integration error, and a wrong initial tilt converges to the true one.",
 ["inputs", "histories", "configurations"], "all gains in the stability domain, all motions of the sensor, all initial errors outside the unstable antipode",
 "the tilt estimator has no test",
 ["src/tilt-estimator.cpp", INC+"observer/tilt-estimator.hpp"],
 [("observer step", "src/tilt-estimator.cpp:oneStepEstimation_, setMeasurement")],
 ["TiltEstimator::getEstimatedState"],
 "differential PBT against a reference step plus convergence on generated motions")

prop("C22", "The elastic flexibility model obeys the Newton-Euler equations",
 "For every flexibility state, robot motion input, mass, contact set and contact model, the accelerations of the model make the rate of change of linear and angular momentum computed from kinematics equal the one computed from all forces, and contact forces are the modelled spring-damper reactions expressed in the contact frames. Measurements are those an IMU, force sensors and an absolute pose sensor would give, and the model's Jacobians are its derivatives.",
 ["inputs", "configurations"], "all states, inputs, stiffnesses, masses, contact numbers and enabled features",
 "the only test using the model discards the error it computes",
 ["src/imu-elastic-local-frame-dynamical-system.cpp", INC+"flexibility-estimation/imu-elastic-local-frame-dynamical-system.hpp"],
 [("accelerations", "src/imu-elastic-local-frame-dynamical-system.cpp:computeAccelerations, computeContactWrench"), ("contact models", "src/imu-elastic-local-frame-dynamical-system.cpp:computeElastContactForcesAndMoments"), ("Jacobians", "src/imu-elastic-local-frame-dynamical-system.cpp:stateDynamicsJacobian, measureDynamicsJacobian")],
 ["getMomentaDotFromForces", "getMomentaDotFromKinematics", "stateDynamics", "measureDynamics", "getForcesAndMoments"],
 "physical-invariant and differential PBT")

prop("C23", "The fixed-contact flexibility estimator is the EKF of its contact model",
 "For every history of measurements and inputs and every set of contacts, the estimate is the extended Kalman filter's for the fixed-contact model with the contact constraints as virtual measurements, with its rotation vector kept regular, and the configured covariances, sampling period and initial guess (as a state, a 6-vector or a homogeneous matrix) are the ones in force. Reading the estimate repeatedly does not change it.",
 ["inputs", "histories", "configurations"], "all contact sets, covariances, sampling periods, guesses and histories",
 "tests run one simulated scenario and compare the final error with a threshold",
 ["src/fixed-contact-ekf-flex-estimator-imu.cpp", "src/ekf-flexibility-estimator-base.cpp", INC+"flexibility-estimation/fixed-contact-ekf-flex-estimator-imu.hpp"],
 [("estimation loop", "src/ekf-flexibility-estimator-base.cpp:getFlexibilityVector"), ("virtual measurement covariance", "src/fixed-contact-ekf-flex-estimator-imu.cpp:updateCovarianceMatrix_")],
 ["getFlexibilityVector", "getFlexibility", "getFlexibilityCovariance"],
 "stateful differential PBT against a reference EKF built on an independent model")

prop("C24", "The model-based flexibility estimator is configurable and bounded",
 "For every configuration and history, the model-based flexibility estimate is the extended Kalman filter's for the configured elastic model, with estimated contact forces and torques within the configured limits when limiting is on. Enabling or disabling force sensing, absolute pose, unmodelled forces or contacts at any time keeps measurement, input and covariance sizes consistent with the declared noise of each sensor. Switched off, it reports no flexibility and forgets pending data.",
 ["inputs", "histories", "configurations"], "all sequences of configuration changes, measurements and reads",
 "the only test runs one configuration and discards the error",
 ["src/model-base-ekf-flex-estimator-imu.cpp", INC+"flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp"],
 [("measurement covariance assembly", "src/model-base-ekf-flex-estimator-imu.cpp:updateMeasurementCovarianceMatrix_"), ("saturation", "src/model-base-ekf-flex-estimator-imu.cpp:getFlexibilityVector")],
 ["getFlexibilityVector", "getMeasurementNoiseCovariance", "getForcesAndMoments"],
 "stateful differential and invariant PBT")

prop("C25", "The kinetics observer keeps track of contacts and sensors over time",
 "For every history of adding, updating and removing contacts, of IMU, contact wrench and absolute pose measurements, and of updates, the observer's set of contacts, its measurement vector and its sizes are exactly those of the contacts and sensors present at that time, each sensor value in its place with the covariance given for it, or the current default one when none is given. Data that are not refreshed are not reused as new measurements.",
 ["histories", "configurations"], "all histories of contact and sensor operations within the declared maxima",
 "the test runs one short scenario with fixed contacts",
 ["src/kinetics-observer.cpp", INC+"dynamics-estimators/kinetics-observer.hpp", INC+"dynamics-estimators/kinetics-observer.hxx"],
 [("contact table", "src/kinetics-observer.cpp:addContact, removeContact, updateContactWithWrenchSensor"), ("measurement assembly", "src/kinetics-observer.cpp:update, getMeasurementVector")],
 ["addContact", "removeContact", "getNumberOfContacts", "getListOfContacts", "getMeasurementSize", "update"],
 "stateful model-based PBT")

prop("C26", "The kinetics observer's state space is a consistent manifold",
 "For every state and tangent increment, the observer's difference is the inverse of its sum, conversions of parts of the state (kinematics, contacts, biases, wrenches) to and from the state vector are lossless, and setting or resetting the covariance of one part changes exactly the entries of this part. States reported to the user always hold unit orientations.",
 ["inputs", "histories", "configurations"], "all states, increments, contact sets, and sequences of setters",
 "the tests only touch the whole state",
 ["src/kinetics-observer.cpp", INC+"dynamics-estimators/kinetics-observer.hpp", INC+"dynamics-estimators/kinetics-observer.hxx"],
 [("state arithmetics", "src/kinetics-observer.cpp:stateSum, stateDifference, measurementDifference"), ("index map", INC+"dynamics-estimators/kinetics-observer.hxx")],
 ["stateSum", "stateDifference", "setStateKinematics", "setGyroBias", "getStateCovarianceMat"],
 "round-trip and model-based PBT")

prop("C27", "The kinetics observer's prediction obeys rigid-body mechanics",
 "For every kinematic state, mass, inertia, angular momentum, contact wrenches and external wrench, the predicted motion satisfies the Newton-Euler equations about the centre of mass, the contact wrenches are those of the contact's stiffness and damping about its rest pose, and the predicted IMU (gyrometer bias included), wrench and pose measurements are those of a robot moving accordingly. Derivatives that are not given are finite differences of the values given. The estimate is the Kalman correction of this prediction. An observer started at an equilibrium with matching measurements stays there. A noise that is set disturbs the predicted state or measurement.",
 ["inputs", "configurations"], "all states, masses, inertias, wrenches, contacts",
 "the test checks only that the filter stays close to a state in a single scenario",
 ["src/kinetics-observer.cpp"],
 [("accelerations", "src/kinetics-observer.cpp:computeAccelerations_"), ("process and sensor models", "src/kinetics-observer.cpp:stateDynamics, measureDynamics")],
 ["update", "estimateAccelerations", "getKinematicsOf", "getEKF"],
 "physical-invariant PBT through the public interface")

prop("C28", "Numeric helpers satisfy their mathematical definitions for all arguments",
 "Clamping, sign, power, square root, normalisation, difference quotient, approximate comparison and finite-time stabilisation helpers return their mathematical definition for every argument, including zero, limits, equal bounds and extreme magnitudes. Every component of a vector argument is processed.",
 ["inputs"], "all finite arguments",
 "tests print a single finite-time trajectory and always succeed",
 [INC+"tools/miscellaneous-algorithms.hpp", "unit-testings/test_acceleration_stabilization.cpp"],
 [("helpers", INC+"tools/miscellaneous-algorithms.hpp")],
 ["tools namespace functions"],
 "definition-level PBT with boundary-heavy generators")

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"] is None and os.path.exists(os.path.join(ROOT, "harness", p["id"].lower() + ".cpp")):
            checks.append({
                "property": p["id"],
                "quick_cmd": "python3 run.py %s" % p["id"],
                "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                "technique": "property-based testing: " + p["check"],
                "level": "exploration",
                "level_note": "No violation on the generated cases counted in the evidence file; trusts the oracle in harness/%s.cpp, the choice-sequence engine harness/pbt.hpp and the stated tolerances. It cannot show absence of violations outside the generated cases." % p["id"].lower()})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "check not built yet"})
    m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo. Replays: python3 run.py <ID> --replay <file>. Known findings and fixes: known-findings.txt."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
if __name__ == "__main__":
    main()
