#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

p("C01", "Forward kinematics composes local transforms along the tree",
  "After `update_transforms` on a chain, every node's world transform equals its parent's world transform (the identity for a root) composed with the joint's origin and then with its motion: a rotation by the position about its axis, a translation by the position along its axis, or nothing for a fixed joint. The returned poses are these transforms in the chain's iteration order, and `end_transform` of a serial chain is the product of its nodes' local transforms. This also holds for a chain that starts below the tree root, whether or not the nodes above it have been updated, and whatever has changed since they were.",
  ["inputs", "histories", "programs"],
  "every tree shape, mix of joint types, origin, axis, position and history of position/origin changes and updates before the call, for f32 and f64",
  "The tests compute two transforms with hand-picked axes; composition order, oblique axes, rotated origins, branching and sub-chains are never compared with a value.",
  ["src/chain.rs", "src/joint/joint.rs", "src/node.rs"],
  [("Chain::update_transforms", "src/chain.rs"), ("Joint::local_transform", "src/joint/joint.rs"), ("Node::parent_world_transform", "src/node.rs"), ("SerialChain::end_transform", "src/chain.rs")],
  ["Chain::update_transforms() result", "Node::world_transform()", "SerialChain::end_transform()"],
  [("world_transform_cache", "last computed world pose", "src/joint/joint.rs")])

p("C02", "A changed joint never reports a stale world pose or velocity",
  "Once a joint's position or origin has been changed through its node or through a chain, that joint's world transform and world velocity read as absent until they are recomputed, and an update of a chain that contains it makes them the values for the current state. Changing only the velocity of a joint makes its world velocity absent and keeps its world transform.",
  ["histories"],
  "every interleaving of checked, clamped and unchecked setters, origin changes and the three update calls",
  "One doc-test looks at the cache before the first update; no test changes a joint after an update and looks again.",
  ["src/joint/joint.rs", "src/chain.rs", "src/node.rs"],
  [("cache reset in every setter", "src/joint/joint.rs"), ("Chain::update_transforms / update_velocities", "src/chain.rs")],
  ["Node::world_transform()", "Node::world_velocity()", "Joint::world_velocity()"],
  [("world_transform_cache, world_velocity_cache", "Option of the last computed value", "src/joint/joint.rs")])

p("C03", "Joint limits are never broken by checked or clamped assignments",
  "A joint that mimics nothing accepts a checked position assignment exactly when it is movable and, if it is limited, the value lies in its closed range; a joint that does not accept keeps its position and the call returns the matching error, naming the joint, the value and the range. A clamped assignment stores the value in the range nearest to the requested one and does nothing to a fixed joint. So no sequence of checked and clamped assignments, on a joint, a node or a whole chain, puts a limited joint outside its range. NaN lies in no range: a checked assignment of it to a limited joint is refused (a clamped one is left open).",
  ["inputs", "histories"],
  "every joint kind, range (including one-sided, degenerate, negative), requested value (including both ends and infinities) and order of assignments, including those that reach a joint through a mimic",
  "Doc-tests try one range and values well inside or outside it; ends, chains of assignments, rejection by a later joint and mimic dependents are not tried.",
  ["src/joint/joint.rs", "src/joint/range.rs", "src/node.rs", "src/chain.rs"],
  [("Joint::set_joint_position", "src/joint/joint.rs"), ("Joint::set_joint_position_clamped", "src/joint/joint.rs"), ("Range::is_valid / Range::clamp", "src/joint/range.rs")],
  ["Result of the setter", "Joint::joint_position()"],
  [("position, limits", "current position and optional closed range", "src/joint/joint.rs")])

p("C04", "Position vectors address the movable joints in iteration order",
  "A chain's `dof`, `joint_positions`, `iter_joints` and the vector setters agree: entry i of a position vector is the i-th movable joint met when iterating the chain, and fixed joints have no entry. The checked vector setter refuses a vector whose length is not `dof`, reporting both lengths and changing nothing; what it accepts is what `joint_positions` returns afterwards (mimicking joints aside).",
  ["inputs", "programs", "histories"],
  "every chain (from root, from end, between two nodes, from a list of nodes), any mix of fixed and movable joints, any vector length",
  "Tests read back vectors on one sample robot whose joints after the root are all movable and always pass the right length.",
  ["src/chain.rs"],
  [("Chain::from_nodes computes movable_nodes and dof", "src/chain.rs"), ("Chain::set_joint_positions", "src/chain.rs")],
  ["Chain::joint_positions()", "Chain::set_joint_positions()", "Chain::dof()", "Chain::iter_joints()"],
  [("nodes, movable_nodes, dof", "members, movable members, their number", "src/chain.rs")])

p("C05", "Mimicking joints follow their source",
  "When a checked position assignment to a joint that mimics nothing succeeds, every joint that mimics it, directly or through other mimicking joints, holds multiplier x (its source's position) + offset. A checked assignment to a mimicking joint succeeds and changes nothing. A joint follows only the source it was most recently given, and a vector assignment on a chain obeys the same rules.",
  ["histories", "programs", "inputs"],
  "every mimic graph (several dependents, dependents of dependents, dependents outside the chain or before the source in it), coefficients, and order of mimic declarations and assignments",
  "One unit test and one doc-test with a single source and a single dependent.",
  ["src/node.rs", "src/chain.rs", "src/joint/mimic.rs"],
  [("Node::set_joint_position", "src/node.rs"), ("Node::set_mimic_parent", "src/node.rs"), ("Mimic::mimic_position", "src/joint/mimic.rs")],
  ["Node::joint_position() of source and dependents"],
  [("mimic_parent, mimic_children, mimic", "mimic graph", "src/node.rs")])

p("C06", "Cloning a chain gives an equal and independent chain",
  "A clone of a chain that starts at a tree root has the same joints in the same order, with the same names, types, limits, origins, positions, velocities and links, the same parents and the same order of children, and the same mimic relations between its members. No later operation on the original or on the clone changes anything observable through the other.",
  ["programs", "histories"],
  "every tree shape and mimic graph, chains from root and from an end node, and every sequence of operations on both chains after the clone",
  "test_clone compares one position vector and two lists of absent transforms on one robot; it never compares names or order, nor a mimic, link or branch order.",
  ["src/chain.rs", "src/node.rs"],
  [("Chain::clone", "src/chain.rs"), ("SerialChain::clone", "src/chain.rs")],
  ["everything readable through both chains before and after"])

p("C07", "Parent and child links always agree",
  "After any sequence of attaching a node to a parent (including moving it from one parent to another or attaching it again to the same one) and detaching it from its parent (detaching it from a node that is not its parent changes nothing), each node is listed exactly once among the children of the node it reports as its parent and in no other child list, children keep the order in which they were last attached, and a node is a root exactly when it has no parent and an end exactly when it has no children.",
  ["histories"],
  "every history of attach, re-attach and detach (from any node) that does not close a cycle",
  "Tests only ever attach parentless nodes once; remove_parent is never called.",
  ["src/node.rs"],
  [("Node::set_parent / Node::remove_parent", "src/node.rs"), ("connect!", "src/node.rs")],
  ["Node::parent()", "Node::children()", "Node::is_root()", "Node::is_end()", "iter_ancestors / iter_descendants"],
  [("parent, children", "weak link up, strong links down", "src/node.rs")])

p("C08", "Chains contain exactly the nodes asked for, parents first",
  "A chain from a root has every descendant exactly once with each node after its parent; a chain from an end has the path from the tree root to that node; a chain between two nodes has the path from the upper to the lower one, both included; iterating ancestors and descendants of a node visits the same sets. A chain converts to a serial chain exactly when no member other than its last has a number of children different from one, finding by name returns the first member so named, and a chain keeps its members alive after every other handle is dropped.",
  ["programs", "histories"],
  "every tree shape, every choice of end and root, and the empty chain",
  "Doc-tests build two- to four-node lines and one two-child fork.",
  ["src/chain.rs", "src/iterator.rs"],
  [("Chain::from_root/from_end/from_end_to_root/from_nodes", "src/chain.rs"), ("Descendants / Ancestors iterators", "src/iterator.rs"), ("SerialChain::try_new", "src/chain.rs")],
  ["Chain::iter()", "Chain::find()", "SerialChain::try_new()"])

p("C09", "The Jacobian is the derivative of the end pose",
  "For a serial chain, column i of `jacobian` is the rate of change of `end_transform` with respect to the i-th movable joint: three linear components of the end point and three angular components, both in the frame in which `end_transform` is expressed. It has six rows and one column per movable joint, for any start node of the chain.",
  ["inputs", "programs"],
  "every serial chain (any mix of fixed, rotational, linear joints, origins, axes), every configuration, chains that start at the tree root or below it",
  "No test looks at a Jacobian; it is only exercised through IK on one arm, where a somewhat wrong one still converges.",
  ["src/funcs.rs", "src/chain.rs"],
  [("jacobian", "src/funcs.rs"), ("SerialChain::end_transform", "src/chain.rs")],
  ["jacobian()"])

p("C10", "World velocities are the time derivative of world poses",
  "After `update_velocities` on a chain that starts at a tree root, each node's world velocity is the rate of change of its world transform when every movable joint moves at its joint velocity: the linear velocity of the node's origin and the angular velocity of its frame, in world coordinates. The returned list holds these in iteration order, and the call returns for every chain, whatever its joint types.",
  ["inputs", "programs"],
  "every tree, joint mix, configuration and set of joint velocities",
  "update_velocities is not called by any test.",
  ["src/chain.rs", "src/joint/velocity.rs"],
  [("Chain::update_velocities", "src/chain.rs"), ("Node::parent_world_velocity", "src/node.rs")],
  ["Chain::update_velocities() result", "Node::world_velocity()"],
  [("velocity", "joint rate", "src/joint/joint.rs")])

p("C11", "Centre of mass is the mass-weighted mean of link centres",
  "`center_of_mass` of a chain with positive total mass is the sum over its members with a link of mass times the world position of the link's inertial origin (the node's world transform applied to it), divided by the total mass. Members without a link do not contribute, and the result reflects the current joint positions whatever was computed before.",
  ["inputs", "histories"],
  "every tree, assignment of links and inertial offsets, masses, configuration and prior history",
  "One unit test with two links, one joint and an unrotated inertial frame.",
  ["src/funcs.rs", "src/link.rs"],
  [("center_of_mass", "src/funcs.rs")],
  ["center_of_mass()"])

p("C12", "Link poses are the node's world pose times the link-local origin",
  "After `update_link_transforms`, the inertial, every visual and every collision element of each member's link reports a world transform equal to the world transform of the member that carries the link composed with that element's own origin, for the current joint positions. Replacing an element's origin makes its world transform absent until the next update.",
  ["inputs", "histories"],
  "every tree, any number of visuals and collisions per link, any origins and configuration, repeated updates after moves",
  "update_link_transforms is not called by any test.",
  ["src/chain.rs", "src/link.rs"],
  [("Chain::update_link_transforms", "src/chain.rs"), ("Inertial/Visual/Collision set_origin and world_transform", "src/link.rs")],
  ["Link.inertial/visuals/collisions world_transform()"],
  [("world_transform_cache of Inertial, Visual, Collision", "last computed world pose of the element", "src/link.rs")])

p("C13", "An IK success is a pose within tolerance and within limits",
  "When an IK solve returns Ok, the arm's end transform differs from the target, in the constrained world coordinates, by less than the allowed distance in position and less than the allowed angle in rotation, and every limited joint of the arm is inside its range. Coordinates whose constraint is off may differ arbitrarily.",
  ["inputs", "configurations"],
  "every arm, start, target, limits, constraint subset and solver setting",
  "Three tests with reachable targets on one arm without limits; the constraint subset is tried once.",
  ["src/ik.rs", "src/chain.rs"],
  [("JacobianIkSolver::solve_with_constraints", "src/ik.rs"), ("calc_pose_diff_with_constraints", "src/ik.rs")],
  ["solve()/solve_with_constraints() result", "SerialChain::end_transform()", "joint_positions()"])

p("C14", "A failed IK solve leaves every joint where it was",
  "When an IK solve returns an error of any kind, all joint positions of the arm are exactly what they were before the call, including positions that were outside their limits or not in agreement with a mimic relation. The returned error is the reason the solve failed, not a failure to restore.",
  ["inputs", "histories", "configurations"],
  "every arm, start (inside limits or not), unreachable or degenerate target, constraint set, iteration budget",
  "No test checks positions after a failed solve.",
  ["src/ik.rs"],
  [("restore in solve_with_constraints", "src/ik.rs")],
  ["joint_positions() before and after", "solve() error"])

p("C15", "IK answers every request, with the right kind of error",
  "A solve always returns: it neither panics nor runs on, whatever the target (also one with non-finite numbers), constraints, ignored names (unknown, repeated, more than there are joints) and iteration budget (also zero). Fewer non-ignored movable joints than constrained coordinates is a precondition error with both numbers, an ignored name that is not a movable joint of the arm is an invalid-name error, and running out of iterations is a not-converged error with the number of tries.",
  ["inputs", "configurations"],
  "every combination of arm size, constraint flags, ignored names, iteration budget and target, including degenerate ones",
  "Tests only use well-formed requests that succeed.",
  ["src/ik.rs", "src/errors.rs"],
  [("solve_with_constraints_internal", "src/ik.rs")],
  ["solve()/solve_with_constraints() result"])

p("C16", "IK never moves ignored joints",
  "Joints named as ignored hold the same position after a solve as before (if that was within their limits), whatever their place in the arm, however many are ignored and in whatever order they are named, and whether the remaining joints are as many as or more than the constrained coordinates. The other joints are the ones that are solved for.",
  ["inputs", "configurations"],
  "every arm, set and order of ignored joints, constraint subset, target",
  "One test ignores the last joint of a redundant arm, starting at the solution.",
  ["src/ik.rs"],
  [("ignored_joint_indices in solve_one_loop_with_constraints", "src/ik.rs")],
  ["joint_positions() before and after a solve"])

p("C17", "IK reaches reachable targets by the documented iteration",
  "Each iteration moves the non-ignored joints by the multiplier times the Jacobian solution of the remaining error in the constrained coordinates (least-norm when redundant), clamps to the limits, and stops at the first iterate within both tolerances, up to the allowed number of tries. So a target near the current pose of a non-singular arm is reached, and a null-space function changes how redundancy is used but not the progress of the constrained coordinates.",
  ["inputs", "configurations"],
  "every non-singular arm (rooted or starting below the root), nearby target, constraint subset, tolerance, multiplier, number of tries, null-space function",
  "Tests cover two arms, one target each and no null-space function in the solver.",
  ["src/ik.rs", "src/funcs.rs"],
  [("solve_one_loop_with_constraints", "src/ik.rs"), ("create_reference_positions_nullspace_function", "src/ik.rs")],
  ["solve() result", "joint_positions() after"])

p("C18", "A URDF document loads as the tree it describes",
  "Loading a well-formed URDF gives one node named `root` carrying the root link plus exactly one node per joint, named after it, carrying the joint's child link and attached below the node that carries the joint's parent link. The result does not depend on the order in which the document lists links and joints, except that siblings keep the order of their joints in the document, and mimic relations connect the joints named in the document.",
  ["inputs", "programs"],
  "every URDF tree (any depth, branching, several joints on the root link) and every order of its link and joint elements",
  "Two tests load one sample file and check counts and two names.",
  ["src/urdf.rs"],
  [("impl From<&urdf_rs::Robot> for Chain", "src/urdf.rs")],
  ["Chain::from_urdf_file / From<Robot>", "Node::parent/children/link/joint"])

p("C19", "URDF joint and link parameters are carried over",
  "Each loaded joint has the type (revolute and continuous rotate, prismatic slides, all others are fixed), unit-length axis, limits (absent when lower equals upper), origin (fixed-axis roll-pitch-yaw then offset) and mimic coefficients (multiplier 1 and offset 0 when absent) of its URDF joint. Each loaded link has the name, mass, symmetric inertia, and the visuals and collisions in order with origin, geometry (mesh scale 1 when absent), colour and texture of its URDF link.",
  ["inputs"],
  "every joint type, axis, limit, origin, geometry kind and presence or absence of each optional element",
  "The sample file has only boxes, a cylinder, zero rotations and no mimic; no test reads parameters back.",
  ["src/urdf.rs", "src/link.rs", "src/joint/joint.rs"],
  [("From conversions of urdf_rs types", "src/urdf.rs"), ("isometry_from, axis_from, quaternion_from", "src/urdf.rs")],
  ["Joint and Link fields of the loaded chain"])

p("C20", "URDF link and joint maps are inverse to each other",
  "`link_to_joint_map` maps every link to the joint whose child it is, and the root link to `root`; `joint_to_link_map` maps every joint to its child link, and `root` to the root link. They agree with the loaded chain and with each other, whatever the order of elements in the document.",
  ["inputs"],
  "every well-formed URDF tree and element order",
  "One doc-test checks three entries of one map; the other map has no test.",
  ["src/urdf.rs"],
  [("link_to_joint_map / joint_to_link_map", "src/urdf.rs")],
  ["the two maps"])

p("C21", "Concurrent use never deadlocks or panics",
  "Threads that concurrently call node and chain operations on a shared tree (reading and setting positions with or without mimics, updating transforms, velocities, links or centre of mass, printing, cloning, traversing, attaching and detaching, declaring mimics, setting links) all return, without a panic and without poisoning a node, under every schedule. This holds as long as no thread keeps a guard it obtained while calling another operation, and the calls are ones that do not panic in any sequential order.",
  ["schedules", "programs"],
  "every interleaving of any two or three such calls on every small tree and mimic graph",
  "All tests are single-threaded.",
  ["src/node.rs", "src/chain.rs", "src/funcs.rs", "src/iterator.rs"],
  [("one mutex per node", "src/node.rs"), ("lock scopes in set_joint_position, Display, update_*", "src/node.rs, src/chain.rs")],
  ["return of every call", "absence of panics"],
  [("Node.0", "Arc<Mutex<NodeImpl>> shared by handles", "src/node.rs")],
  "the node mutex reports lock and unlock to a scheduler under cfg(k_verif)")

p("C22", "Concurrent results are explained by per-joint atomic steps",
  "While the tree and the mimic relations stay fixed, every result of concurrent calls is one that some interleaving of their per-joint steps allows: each joint's position is read and written atomically, an assignment to a mimic source and all its dependents is one atomic step, vector reads and writes take one joint at a time in order, and a computed pose or mean uses for every member, and for every joint above it, a position that the joint really had during the call. A world transform that is present when all calls have returned belongs to the joint's final position. No assignment is lost or invented, and no member is left out of a result.",
  ["schedules", "histories"],
  "every interleaving of two or three concurrent calls on every small tree and mimic graph",
  "All tests are single-threaded.",
  ["src/node.rs", "src/chain.rs", "src/funcs.rs"],
  [("lock scope of Node::set_joint_position", "src/node.rs"), ("Chain::update_transforms", "src/chain.rs"), ("center_of_mass", "src/funcs.rs")],
  ["results of concurrent calls", "positions after all have returned"],
  [("Node.0", "Arc<Mutex<NodeImpl>> shared by handles", "src/node.rs")],
  "the node mutex reports lock and unlock to a scheduler under cfg(k_verif)")

p("C23", "Printing a chain shows each member under its parent",
  "Formatting a chain made from a root, from an end or between two nodes prints one line per member, in depth-first order of the child lists starting at the first member, indented by its depth below that member, with the joint's name, its type (and the axis when it is a coordinate axis), and the link's name if it has a link. Nodes that are not members are not printed, and formatting works for every chain, also an empty one.",
  ["programs", "histories"],
  "every tree, every chain over it and every joint type and axis",
  "No test looks at the output.",
  ["src/chain.rs", "src/node.rs", "src/joint/joint_type.rs"],
  [("Chain::fmt_with_indent_level", "src/chain.rs"), ("Display for Node, Joint, JointType", "src/node.rs, src/joint")],
  ["format!(\"{}\", chain)"])

p("C24", "Constraint flags default to constrained",
  "IK constraints constrain all six coordinates and ignore no joint unless told otherwise, both by default construction and when deserialized (serde feature) from a document that leaves any of the fields out; fields that are present keep their value, and serializing and deserializing gives the same constraints.",
  ["inputs", "configurations"],
  "every subset of present fields and every value of each",
  "A doc-test checks Default; the serde feature is compiled but never tested.",
  ["src/ik.rs"],
  [("Constraints and its serde defaults", "src/ik.rs")],
  ["Constraints fields"])

p("C25", "Builders produce exactly what was set last",
  "A node builder yields a joint with the name, type, limits and origin set last, where setting the translation or the rotation replaces only that part of the origin and setting the origin replaces both, and everything not set has its default (empty name, fixed, no limits, identity origin, zero position and velocity). A link builder yields a link with the name and inertial set last and all visuals and collisions in the order they were added.",
  ["histories"],
  "every sequence of builder calls",
  "Doc-tests call each setter at most once and in one order.",
  ["src/node.rs", "src/link.rs"],
  [("NodeBuilder", "src/node.rs"), ("LinkBuilder", "src/link.rs")],
  ["fields of the built joint and link"])

with open(os.path.join(HERE, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
