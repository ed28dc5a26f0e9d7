#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that the JSON stays well-formed)."""
import json, os
H, S, I, C, F, P = "histories", "schedules", "inputs", "configurations", "fault_sequences", "crash_points"
props = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
               "observe_at": observe, "hook_needed": hook}
    if state: anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": anchors})

prop("C01", "Link poses always reflect the current configuration, whatever the history",
 "After any sequence of joint-angle changes, base-pose changes, link additions, cache resets, failed calls and queries, issued in any order by any number of clients taking turns on a model, the pose returned for any link equals the composition of the base pose and the joint transforms along that link's chain at the configuration currently set. Every setter not prefixed with an underscore takes effect for the very next query; a value written by an underscore-prefixed setter takes effect no later than the next cache reset. A call that fails (rejected argument, failed allocation inside a query) changes no later answer.",
 [H, C, F], "every operation history, every tree-shaped robot with revolute, continuous, prismatic and fixed joints (unit axes), every placement of failed queries and rejected calls",
 "the tests evaluate ten links of one robot at one configuration, right after a cache reset; they never interleave setters, additions, failed calls and queries, so a stale or partially filled cache is not observable to them",
 ["src/kinematics.cpp", "src/tinyfk.cpp", "include/tinyfk.hpp", "include/data_structure.hpp", "urdf_parser/src/pose.cpp", "urdf_parser/include/urdf_model/joint.h", "urdf_parser/include/urdf_model/pose.h"],
 [("per-link pose cache, cleared by the setters", "include/data_structure.hpp SizedCache; KinematicModel::set_*"), ("chain walk with an explicit stack", "KinematicModel::get_link_pose_inner")],
 ["KinematicModel::get_link_pose"],
 [("transform_cache_", "poses already computed for the current configuration", "include/tinyfk.hpp"), ("transform_stack_", "scratch stack sized by the number of links", "include/tinyfk.hpp")])

prop("C02", "Every Jacobian is the derivative of the pose at the current configuration",
 "After any history of configuration changes, link additions, cache resets, failed calls and queries, the Jacobian returned for any link, any list of joints in any order and any rotation representation (none, roll-pitch-yaw, quaternion), with or without the six base columns, is the derivative of that link's pose with respect to those coordinates at the configuration currently set (away from roll-pitch-yaw singularities). Columns of joints that do not move the link are zero, and asking for a Jacobian changes no later answer.",
 [H, C, F], "every operation history, robot, joint list, rotation representation and base configuration (including base yaw outside one turn)",
 "one link of one robot at one configuration is differentiated by the tests, with revolute joints only moving it and a base yaw inside half a turn",
 ["src/kinematics.cpp", "src/tinyfk.cpp", "include/tinyfk.hpp"],
 [("relevance table of links and joints, rebuilt when a link is added", "KinematicModel::update_rptable"), ("analytic joint columns, numeric base columns", "KinematicModel::get_jacobian")],
 ["KinematicModel::get_jacobian"],
 [("rptable_", "which joints move which links", "include/tinyfk.hpp")])

prop("C03", "Mass, centre of mass and inertia follow the current configuration",
 "For a robot of positive mass, after any history of configuration changes, link additions, cache resets, failed calls and queries, the total mass, the centre of mass, its Jacobian (with or without base columns) and the total inertia about the centre of mass equal the values computed from the inertial parameters declared for each link (mass, inertial frame position and orientation, inertia tensor) at the configuration currently set. Attaching extra links never changes them.",
 [H, C, F], "every operation history, robot and distribution of inertial elements, including links without one and inertial frames with a rotation",
 "the only inertia test uses one robot at its zero configuration with unrotated inertial frames; centre of mass and its Jacobian have no C++ test",
 ["src/kinematics.cpp", "src/tinyfk.cpp", "urdf_parser/src/link.cpp"],
 [("one dummy link per link with an inertial element", "KinematicModel::KinematicModel"), ("mass-weighted sums over the dummy links", "get_com, get_com_jacobian, get_total_inertia_matrix")],
 ["total_mass_", "get_com", "get_com_jacobian", "get_total_inertia_matrix"],
 [("com_dummy_links_", "links carrying the inertial parameters", "include/tinyfk.hpp")])

prop("C04", "Names, ids, limits and angles stay consistent through any history",
 "Through any history of link additions, configuration changes, failed calls and queries, ids handed out for links and joints never change meaning, names and ids correspond one to one over 0..n-1, a newly added link gets the next id and is attached to the named parent, and joint angles read back as last set (zero initially and after a reset). Joint position, velocity and effort limits are those declared in the description (a continuous joint is unbounded in position, and a joint without declared limits is unbounded in velocity and effort). Unknown names and duplicate link names are rejected with an exception and leave everything unchanged.",
 [H, C, F], "every operation history with rejected calls placed anywhere, every robot",
 "the tests add one link once, check one duplicate and read the limits of three joints of one robot",
 ["src/tinyfk.cpp", "include/tinyfk.hpp", "urdf_parser/src/joint.cpp"],
 [("name-to-id maps grown by add_new_link", "KinematicModel::add_new_link"), ("lookup with rejection of unknown names", "get_link_ids, get_joint_ids")],
 ["get_link_ids", "get_joint_ids", "get_link_names", "get_joint_names", "get_joint_*_limits", "get_joint_angles", "add_new_link"])

prop("C05", "Models used by different threads never influence each other",
 "When several threads each use only models of their own (parsing or loading a description, changing the configuration, querying poses, Jacobians and mass properties, adding links, exporting, destroying), then under every interleaving of the threads each call returns what it returns when its thread runs alone, and every thread finishes.",
 [S, H], "every preemptive interleaving of threads that share no model",
 "all tests are single-threaded; hidden shared state (static scratch buffers, lazily built tables, a global parser setting) is invisible to them",
 ["src/kinematics.cpp", "src/tinyfk.cpp", "include/tinyfk.hpp", "include/data_structure.hpp", "urdf_parser/src/model.cpp", "urdf_parser/src/link.cpp", "urdf_parser/src/joint.cpp", "urdf_parser/src/pose.cpp", "urdf_parser/tinyxml/tinyxml.cpp", "urdf_parser/tinyxml/tinyxmlparser.cpp"],
 [("all mutable state lives in the model or on the stack", "whole library")],
 ["results of every public call on each thread"])

prop("C06", "A copied model is independent of the original",
 "A copy of a model (copy construction or assignment) starts with the same links, ids, configuration and answers, and from then on nothing done to either one (configuration changes, link additions, destruction) affects any answer of the other, also when the copies are used by different threads.",
 [H, S], "every history of copies, assignments, additions, configuration changes and destructions over a family of models, and interleavings of threads using different copies",
 "no test ever copies a model and uses both",
 ["include/tinyfk.hpp", "src/tinyfk.cpp"],
 [("copy semantics of the link and joint graph", "KinematicModel copy operations")],
 ["all queries on the original and on the copies"])

prop("C07", "Damaged robot descriptions are rejected or loaded, never crash or hang",
 "Building a model from a robot description that was damaged in storage (truncated, flipped or garbled bytes, lost, zeroed, duplicated or swapped blocks, records of two descriptions mixed) either throws an exception or yields a model on which every query can be used safely and answers consistently. It never crashes, reads or writes memory it does not own, or runs without bound. Descriptions whose joints do not form a single tree are rejected.",
 [F, I], "every sequence of storage damage applied to valid descriptions of ordinary nesting depth",
 "the tests load one intact file; none feeds a damaged one",
 ["src/tinyfk.cpp", "urdf_parser/src/model.cpp", "urdf_parser/src/link.cpp", "urdf_parser/src/joint.cpp", "urdf_parser/src/pose.cpp", "urdf_parser/include/urdf_model/model.h", "urdf_parser/tinyxml/tinyxmlparser.cpp", "urdf_parser/tinyxml/tinyxml.cpp", "urdf_parser/tinyxml/tinyxml.h"],
 [("parser error state and tree validation", "TiXmlDocument::Parse, ModelInterface::initTree/initRoot"), ("rejection in the constructor", "KinematicModel::KinematicModel")],
 ["KinematicModel constructor", "urdf::parseURDF"])

prop("C08", "Loading a file yields its exact content or reports the failure",
 "Loading a description from a file delivers exactly the text stored in the file (apart from a final newline) however the operating system splits or interrupts the reads. If the file cannot be opened or a read fails part-way, the caller can tell: an exception, an empty result or a null/false return, never a silently shortened description.",
 [F, S], "every schedule of short and interrupted reads, open failures and read errors at any offset, for every file content without NUL bytes",
 "tests read small files from a healthy disk, where every read succeeds in one piece",
 ["src/tinyfk.cpp", "urdf_parser/src/model.cpp", "urdf_parser/tinyxml/tinyxml.cpp"],
 [("line-wise stream reading", "tinyfk::load_urdf"), ("whole-stream reading", "urdf::parseURDFFile"), ("length-checked fread", "TiXmlDocument::LoadFile")],
 ["load_urdf", "parseURDFFile", "TiXmlDocument::LoadFile"])

prop("C09", "An acknowledged document save is complete on disk",
 "When saving an XML document to a named file reports success, the file holds the complete document, and loading it gives back the same elements, attributes and text (values containing a hexadecimal character reference such as &#x41; are written as that reference, by TinyXML's documented design). When the disk fills up, a write or the closing of the file fails, or the file cannot be opened, the save reports failure.",
 [F, P], "every placement of full disks, short writes, write errors and close errors within the save, for every document",
 "nothing in the tests saves a document or injects an I/O error",
 ["urdf_parser/tinyxml/tinyxml.cpp", "urdf_parser/tinyxml/tinyxmlparser.cpp"],
 [("stream error check after printing", "TiXmlDocument::SaveFile")],
 ["TiXmlDocument::SaveFile", "TiXmlDocument::LoadFile"])

prop("C10", "Exporting and re-importing a robot preserves its kinematics",
 "Exporting a parsed robot description to XML and parsing the result, over any number of generations and with the process-wide locale changed at arbitrary moments (decimal comma, digit grouping), gives a robot with the same links, tree, joint types, axes, origins, limits, mimic, safety, calibration and dynamics values and inertial parameters, up to the six significant digits written. Parsing is equally unaffected by the locale. When memory runs out inside parsing or exporting, the call throws; it never returns an altered robot.",
 [H, F, C], "every export/import history with locale switches placed anywhere (including between the elements of one export) and failing allocations, every robot",
 "no test exports a robot, changes the locale or makes an allocation fail",
 ["urdf_parser/src/joint.cpp", "urdf_parser/src/link.cpp", "urdf_parser/src/pose.cpp", "urdf_parser/src/model.cpp", "urdf_parser/include/urdf_model/utils.h", "urdf_parser/tinyxml/tinyxml.cpp"],
 [("number formatting", "urdf_export_helpers::values2str"), ("number parsing in the classic locale", "urdf::strToDouble"), ("element writers", "exportJoint, exportLink")],
 ["urdf::exportURDF", "urdf::parseURDF"])

prop("C11", "Running out of memory never leaves a half-made model",
 "If any memory allocation fails while a model is built, copied, reconfigured or extended with a link, the call throws and no memory is corrupted; an existing model is afterwards exactly as before the call (same links, ids and answers) and remains fully usable, so that the same call succeeds when repeated with memory available. A model whose construction did not throw is the same as one built without the failure.",
 [F, H], "every allocation point of every state-changing operation, within every operation history",
 "no test makes an allocation fail",
 ["src/tinyfk.cpp", "include/tinyfk.hpp", "include/data_structure.hpp", "urdf_parser/src/model.cpp", "urdf_parser/include/urdf_model/utils.h", "urdf_parser/tinyxml/tinyxmlparser.cpp"],
 [("roll-back of a failed addition", "KinematicModel::add_new_link"), ("exception transparency of the number parser", "urdf::strToDouble")],
 ["KinematicModel constructor", "add_new_link", "set_joint_angles", "set_base_pose", "set_init_angles"])

prop("C12", "Models, copies and rejected descriptions leave no memory behind",
 "After any history of loading, querying, copying, extending, exporting and destroying models, including descriptions that were rejected as damaged and file operations that failed, destroying every model and document returns all memory they took: repeating the history does not grow the process.",
 [H, F], "every operation history with storage damage and I/O errors (memory exhaustion excluded)",
 "tests never measure memory and never load a damaged description",
 ["src/tinyfk.cpp", "urdf_parser/src/model.cpp", "urdf_parser/include/urdf_model/link.h", "urdf_parser/include/urdf_model/joint.h", "urdf_parser/include/urdf_model/model.h", "urdf_parser/tinyxml/tinyxml.cpp", "urdf_parser/tinyxml/tinyxmlparser.cpp"],
 [("weak parent and child references in the link graph", "urdf::Link, urdf::Joint"), ("document owns its nodes", "TiXmlNode, TiXmlAttributeSet")],
 ["bytes allocated before and after a repeated history"])

prop("C13", "Python solvers answer each waypoint for itself, whatever was asked before",
 "In the Python interface, forward kinematics, centre-of-mass kinematics (optionally as the force-weighted mean with the positions of links that vertical forces act on), total inertia and inter-link distances return for every waypoint of a batch the values of the robot at that waypoint's configuration, where coordinates that are not part of the call (other joints, the base pose of a fixed-base call) keep the value last given by set_q or an earlier waypoint, with one Jacobian column per input coordinate (fixed, planar or floating base). No earlier call in any history by any interleaving of clients changes the answer, rejected calls and empty batches included, and explicitly reusing the cache for an unchanged configuration gives the same answer too. get_q reads back exactly those coordinates (base pitch within 90 degrees). Vectors of the wrong length, entries that are not numbers, and force lists that do not match their links are rejected with an exception and change nothing.",
 [H, C], "every history of solver calls, setters, cache resets and link additions, interleaved by several clients of one model, every base type and batch",
 "the Python tests (not run by the C++ build) use fresh caches, floating bases and never check centre of mass or inertia after another call",
 ["src/wrapper.cpp", "python/tinyfk/__init__.py", "src/kinematics.cpp"],
 [("cache clearing per waypoint", "KinematicsModelPyWrapper::solve_*"), ("planar base expansion and column selection", "python KinematicModel")],
 ["solve_fk", "solve_com_fk", "compute_total_inertia_matrix", "compute_inter_link_sqdists", "get_q"])

prop("C14", "Pickles and copies restore the model, generation after generation",
 "Restoring a pickle, a copy or a deep copy of a Python model gives a model with the same link and joint names and ids, the same added links and the joint angles and base pose most recently set with set_q, no matter which calls (also rejected ones, and later changes to caller-owned arrays) happened before. This holds when the restored model is changed and saved again any number of times, with the process restarted from the last saved pickle at any point, and saving or copying never alters the original.",
 [H, P], "every history of set_q, add_new_link, rejected calls, pickling, copying and restarts from the last saved state",
 "one test deep-copies once, after one addition and one set_q",
 ["python/tinyfk/__init__.py"],
 [("recorded history of additions and set_q calls, replayed on restore", "KinematicModel.__getstate__/__setstate__")],
 ["pickle.dumps/loads", "copy.copy", "copy.deepcopy", "get_q", "get_link_ids", "solve_fk"])

prop("C15", "A successful import leaves complete robot files, after any earlier crash",
 "Whenever importing the Python package succeeds, the files named by pr2_urdfpath() and fetch_urdfpath() exist with the complete published content and stay complete, no matter where earlier imports were killed or interrupted, lost the network, ran out of disk space or ran at the same time in other processes. An import that meets no fault itself succeeds, also next to other imports that fail or are killed and after any of them, and once the files are complete imports need no network.",
 [F, P, S], "every crash point, network failure or disk error within any number of earlier or concurrent imports",
 "no test exercises the first import, let alone one that fails",
 ["python/tinyfk/__init__.py"],
 [("download into ~/.tinyfk at import time", "python/tinyfk/__init__.py module level")],
 ["import tinyfk", "pr2_urdfpath", "fetch_urdfpath"])

prop("C16", "Quaternion and roll-pitch-yaw conversions agree",
 "Converting roll-pitch-yaw angles to a rotation and back gives the same rotation, inverting a rotation or pose and composing with the original gives identity, and normalising keeps the rotation.",
 [I], "every rotation", "two rotations are tried by the tests",
 ["urdf_parser/include/urdf_model/pose.h", "urdf_parser/src/pose.cpp"],
 [("closed-form conversions", "urdf::Rotation")], ["setFromRPY", "getRPY", "inverse", "pose_transform"])

prop("C17", "Visual and collision geometry survives parsing, export and copies",
 "For every robot description, in the parsed robot, in the model built from it, in copies of that model that outlive it, and after any number of export and re-import generations, every link carries its visual and collision elements in the declared order, each with its name, origin, kind of shape, dimensions, mesh file and scale, and visuals with their material's name, colour and texture, whether the material is defined in place or once for the whole robot (numbers up to the six significant digits an export writes). This holds with the process-wide locale changed at arbitrary moments; when memory runs out, the call throws and never returns altered geometry.",
 [H, F, I], "every parse, export, build and copy history with locale switches and failing allocations placed anywhere, every well-formed description",
 "no test reads geometry back, exports a robot, changes the locale or makes an allocation fail",
 ["urdf_parser/src/link.cpp", "urdf_parser/src/model.cpp", "urdf_parser/src/pose.cpp", "urdf_parser/include/urdf_model/link.h", "urdf_parser/include/urdf_model/color.h", "urdf_parser/include/urdf_model/utils.h", "urdf_parser/tinyxml/tinyxml.cpp", "src/tinyfk.cpp"],
 [("element parsers", "parseVisual, parseCollision, parseGeometry, parseMaterial"), ("element writers", "exportVisual, exportCollision, exportGeometry, exportMaterial"), ("materials shared by name", "assignMaterial")],
 ["urdf::parseURDF", "urdf::exportURDF", "KinematicModel links"])

prop("C18", "The work of a query is bounded, whatever happened before",
 "While the configuration is unchanged, asking again for the pose of a link costs a constant number of steps however deep the link lies and whatever other queries came in between. After a change of configuration, the first pose of a link costs steps linear in its depth, the poses of all links together (in any order) steps linear in the number of links, and centre of mass, inertia and Jacobians no more than that on top of what they cost once the poses are known. No history of changes, additions, copies, assignments, rejected calls, failed allocations and queries, by any interleaving of clients, makes a query or a setter cost more steps than on a newly built model of the same robot with the same links.",
 [H, C, F], "every operation history, every tree-shaped robot, every order of queries",
 "the benchmark prints the time of one kind of query on one robot and checks nothing; no test counts work, and none does so after a history",
 ["src/kinematics.cpp", "src/tinyfk.cpp", "include/data_structure.hpp", "include/tinyfk.hpp"],
 [("per-link pose cache, filled for every link on the chain", "SizedCache; KinematicModel::get_link_pose_inner"), ("cache reset by the setters only", "KinematicModel::set_*")],
 ["number of executed steps of get_link_pose, get_jacobian, get_com, get_com_jacobian, get_total_inertia_matrix, setters"],
 [("transform_cache_", "poses already computed for the current configuration", "include/tinyfk.hpp")])

prop("C19", "Repeating the same calls gives exactly the same answers",
 "The same sequence of calls on the same descriptions gives bit for bit the same answers every time: names and their order, ids, limits, poses, Jacobians, mass properties, parsed and exported content, and which calls are rejected. Where memory was placed, what it or the stack held before, whether freed memory is reused, the clock, the process id, random number sources, and which other models the process has built, queried, copied, extended, destroyed or failed to build before or in between make no difference.",
 [H, C, F], "every operation history, every placement and earlier content of memory, every state of clocks and random sources, every history of unrelated models in the same process",
 "a test runs once, in one process layout, with nothing else in the process, and compares with tolerances; a dependence on an address, a stale byte, the time or another model shows only when that is different the second time",
 ["src/kinematics.cpp", "src/tinyfk.cpp", "urdf_parser/src/model.cpp", "urdf_parser/src/link.cpp", "urdf_parser/src/joint.cpp", "urdf_parser/tinyxml"],
 [("ids are given in the order of the sorted name maps", "RobotModelBase::RobotModelBase"), ("every output matrix and accumulator is written before it is read", "KinematicModel::get_jacobian, get_com, get_com_jacobian, get_total_inertia_matrix")],
 ["get_joint_names, get_link_names, get_link_ids, get_joint_ids, limits", "get_link_pose, get_jacobian, get_com, get_com_jacobian, get_total_inertia_matrix", "urdf::parseURDF, urdf::exportURDF", "exceptions"],
 [("links_, joints_, link_ids_, joint_ids_", "the model, a function of the description and the calls alone", "include/tinyfk.hpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props: f.write(json.dumps(p) + "\n")
