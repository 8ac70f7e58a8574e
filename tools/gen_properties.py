#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": q},
              "why_tests_cant": why, "anchors": a})

X = "src/iidm/converter/xml/"
p("C01", "XML export followed by import gives back the same network",
  "Writing any network to XML with the current format version and default options and reading the document back yields a network with the same containers, equipment, connection points, attributes, aliases, properties, limits, tap changers, regulation targets, extensions and calculated state (of the exported variant). Exporting the re-read network gives byte-for-byte the same document.",
  ["inputs", "histories"], "every network that can be built through the public API (node/breaker and bus/breaker levels, every equipment type, optional data present or absent, any text in names, any representable number), in every variant",
  "The round-trip tests compare a few dozen hand-written reference files; combinations of optional attributes, unusual numbers and texts, regulation across voltage levels and several variants are never exercised.",
  ["src/iidm/converter/xml", "src/iidm/Network.cpp", "src/xml", "extensions/iidm/src", "extensions/sld/src", "extensions/entsoe/src"],
  [("network writer and reader", X + "NetworkXml.cpp"), ("per-equipment serializers", X + "*Xml.cpp"), ("deferred reference resolution", X + "NetworkXmlReaderContext.cpp"), ("number formatting and parsing", "src/xml/XmlStreamWriter.cpp, src/xml/XmlStreamReader.cpp")],
  observe=["Network::writeXml / Network::readXml", "public getters"])
p("C02", "Every export version and option keeps what it says it keeps",
  "For every supported format version, exporting either fails with an explicit incompatibility error or yields a document that declares that version, can be imported, and preserves all the data the version can represent. Export and import options do exactly what they announce: the chosen topology level reduces connections to that level without changing which equipment is electrically joined, anonymized documents contain no original identifier and are restored exactly by the mapping table, only selected extensions appear, and switches or other data are dropped only when asked.",
  ["inputs", "configurations"], "every generated network x every format version 1.0-1.5 x topology level, anonymization, extension selection, main-component-only, indentation and version-incompatibility options",
  "Tests cover each version on the same few reference files and each option on one sample network.",
  ["src/iidm/converter", X[:-1], "src/iidm/TopologyLevel.cpp"],
  [("version guards", X + "IidmXmlUtil.cpp"), ("version table", X + "IidmXmlVersion.cpp"), ("export options", "src/iidm/converter/ExportOptions.cpp"), ("anonymizer", "src/iidm/converter/SimpleAnonymizer.cpp"), ("bus/breaker view switch export", X + "BusBreakerViewSwitchXml.cpp")],
  observe=["exported bytes", "re-imported network"])
p("C03", "Reading any document is memory-safe and ends in a network or an error",
  "Importing any byte sequence - truncated, mutated, structurally shuffled or random XML - terminates and either returns a network that is internally consistent or raises a normal library exception. It never crashes, reads or writes invalid memory, aborts the process, or returns a network whose references point outside itself.",
  ["inputs"], "every byte string, in particular every mutation of a valid document (attributes removed, duplicated or given other values, elements moved, truncated, unknown elements, bad numbers, dangling references)",
  "Tests feed a handful of invalid files; each only checks one error message.",
  [X[:-1], "src/xml"],
  [("stream reader wrapper", "src/xml/XmlStreamReader.cpp"), ("element dispatch", X + "NetworkXml.cpp"), ("end tasks", X + "NetworkXmlReaderContext.cpp")],
  observe=["Network::readXml result or exception", "address and undefined-behaviour sanitizers"])
p("C04", "A change made in one variant is visible in that variant only",
  "Creating a variant copies the complete state of its source variant at that moment; from then on a state change (set points, flows and voltages, switch positions, connections, tap positions, regulation status, section counts, extension state, ...) is visible in the working variant only, and reads always return the last value written in the working variant. Structural data is shared and equal in all variants, and objects created after variants exist have the same initial state in all of them.",
  ["histories", "inputs"], "every interleaving of clone / overwrite / remove / switch variant, state changes on any object and object creation or removal",
  "The tests set one or two attributes per equipment type over one clone/remove sequence.",
  ["src/iidm/VariantManager.cpp", "src/iidm/Network.cpp", "src/iidm", "include/powsybl/iidm/VariantArray.hxx", "extensions/iidm/src"],
  [("per-object variant arrays", "src/iidm/*.cpp extendVariantArraySize/allocateVariantArrayElement"), ("stateful object walk", "src/iidm/NetworkIndex.cpp getStatefulObjects"), ("multi-variant extensions", "src/iidm/AbstractMultiVariantIdentifiableExtension.cpp")],
  state=[("variant index", "slot of each per-variant array", "VariantManager")],
  observe=["public getters in each variant"])
p("C05", "The variant manager follows its documented life cycle",
  "The set of variants, the working variant and the outcome of every request (create, create several, overwrite, remove, select, run for each) always match a simple set model: requests naming unknown or already existing variants, or removing the initial variant, fail and change nothing, and the initial variant always exists. With multi-threaded access enabled each thread has its own working variant per network, unaffected by other threads and other networks.",
  ["histories", "schedules"], "every sequence of variant manager calls, valid or not, including lists of targets with repetitions, on several networks and from several threads",
  "Tests run one fixed sequence; failing calls are checked for their message and not for the absence of side effects.",
  ["src/iidm/VariantManager.cpp", "src/iidm/ThreadLocalMultipleVariantContext.cpp", "src/iidm/MultipleVariantContext.cpp"],
  [("variant id table and unused indices", "src/iidm/VariantManager.cpp"), ("variant contexts", "src/iidm/ThreadLocalMultipleVariantContext.cpp")],
  observe=["VariantManager public methods"])
p("C06", "Identifiers and aliases resolve uniquely and counts match the content",
  "At any time every identifier or alias designates at most one object of the network, looking it up returns exactly that object (or a typed error when the type does not match), and every listing and count - per network, substation, voltage level and type - contains exactly the objects created and not removed. Adding an identifier or alias that is already taken is refused without effect, and automatically made unique when that is requested.",
  ["histories", "inputs"], "every history of creations (accepted or refused), removals, alias additions and removals, with any identifiers",
  "Tests look up a few objects of fixed networks and check one duplicate per adder.",
  ["src/iidm/NetworkIndex.cpp", "src/iidm/Identifiable.cpp", "src/iidm/Network.cpp", "include/powsybl/iidm/NetworkIndex.hxx"],
  [("object and alias index", "src/iidm/NetworkIndex.cpp"), ("typed collections", "include/powsybl/iidm/NetworkIndex.hxx"), ("unique id computation", "src/iidm/NetworkIndex.cpp getUniqueId")],
  state=[("m_objectsById, m_idByAlias, m_objectsByType", "index contents", "NetworkIndex")],
  observe=["Network lookups, counts and ranges"])
p("C07", "Node/breaker levels always expose the buses their switches define",
  "In a node/breaker voltage level, the buses of the bus view (connected through closed switches and internal connections) and of the bus/breaker view (additionally split by retained switches), the equipment on each of them, and the bus of every terminal always equal those of a direct computation from the current nodes, switches and connections of the working variant. This holds after any history of topology edits, switching and variant changes, interleaved with queries.",
  ["histories", "inputs"], "every node/breaker level and every sequence of adding/removing switches, internal connections and equipment, operating switches, changing retained flags and variants, with queries in between",
  "Tests query fixed small levels, mostly once after construction; stale caches and unusual node numbering are not exercised.",
  ["src/iidm/NodeBreakerVoltageLevel.cpp", "src/iidm/NodeBreakerVoltageLevelBusTopology.cpp", "src/iidm/NodeBreakerVoltageLevelTopology.cpp", "src/iidm/NodeBreakerVoltageLevelBusBreakerTopology.cpp", "src/iidm/NodeTerminal.cpp"],
  [("calculated bus topologies and caches", "src/iidm/NodeBreakerVoltageLevelTopology.cpp"), ("cache invalidation", "src/iidm/NodeBreakerVoltageLevel.cpp invalidateCache")],
  observe=["bus view, bus/breaker view, node/breaker view, terminal views"])
p("C08", "Bus/breaker levels always expose the merged buses their switches define",
  "In a bus/breaker voltage level, the configured buses, the merged buses of the bus view (configured buses joined by closed switches), the equipment connected to each, and the bus of every terminal always equal those of a direct computation from the current buses, switches and connection status in the working variant. This holds after any history of topology edits, reconnection to another bus, switching and variant changes, interleaved with queries.",
  ["histories", "inputs"], "every bus/breaker level and every sequence of adding/removing buses, switches and equipment, moving equipment between buses, connecting, disconnecting, operating switches and changing variants, with queries in between",
  "Tests query fixed two- or three-bus levels once after construction.",
  ["src/iidm/BusBreakerVoltageLevel.cpp", "src/iidm/BusBreakerVoltageLevelTopology.cpp", "src/iidm/MergedBus.cpp", "src/iidm/ConfiguredBusImpl.cpp", "src/iidm/BusTerminal.cpp"],
  [("merged bus computation and cache", "src/iidm/BusBreakerVoltageLevelTopology.cpp"), ("terminal lists per variant", "src/iidm/ConfiguredBusImpl.cpp")],
  observe=["bus view, bus/breaker view, terminal views"])
p("C09", "Connected and synchronous components match the network graph",
  "Two buses are in the same connected component exactly when a chain of branches, transformers and HVDC lines with connected ends joins them, and in the same synchronous component exactly when such a chain without HVDC lines does; components are numbered from 0 by decreasing number of buses, their sizes and bus lists are exact, and number 0 is the main component. This holds in each variant after any sequence of changes.",
  ["histories", "inputs"], "every network (disconnected ends, isolated levels, parallel branches, three-winding transformers, tie lines, HVDC with one side open) and every history of connections, switching, creations, removals and variant changes",
  "One test network with fixed expectations; no changes between queries except a few switch openings.",
  ["src/iidm/AbstractComponentsManager.cpp", "src/iidm/ConnectedComponentsManager.cpp", "src/iidm/SynchronousComponentsManager.cpp", "src/math/GraphUtil.cpp", "src/iidm/Component.cpp"],
  [("component computation", "src/math/GraphUtil.cpp"), ("adjacency construction and invalidation", "src/iidm/AbstractComponentsManager.cpp")],
  observe=["Bus::getConnectedComponent, getSynchronousComponent, main component flags, component managers"])
p("C10", "Connecting and disconnecting equipment does what its result says",
  "After a successful connection request the terminal is joined to a busbar section by closed switches (node/breaker) or connected to its connectable bus (bus/breaker); after a successful disconnection request no closed path joins it to a busbar section or bus. A connection request on a connected terminal, a disconnection request on a disconnected one and a request that operating breakers cannot satisfy report failure and change nothing. Requests only close (connect) or open (disconnect) breakers of the terminal's own voltage level, in the working variant, and never touch disconnectors, other voltage levels, other variants or structural data.",
  ["histories", "inputs"], "every level topology (rings, parallel feeders, disconnectors only, load break switches, internal connections, isolated nodes) and every sequence of connect / disconnect requests on any terminal",
  "Tests connect and disconnect a few feeders in three fixed levels.",
  ["src/iidm/NodeBreakerVoltageLevel.cpp", "src/iidm/BusBreakerVoltageLevel.cpp", "src/iidm/Terminal.cpp", "include/powsybl/math/UndirectedGraph.hxx"],
  [("path search", "include/powsybl/math/UndirectedGraph.hxx findAllPaths"), ("switch selection", "src/iidm/NodeBreakerVoltageLevel.cpp connect/disconnect"), ("bus terminal connection", "src/iidm/BusBreakerVoltageLevel.cpp")],
  observe=["Terminal::connect/disconnect/isConnected", "switch positions"])
p("C11", "Removing an object removes all of it and nothing else",
  "Removing an equipment, switch, bus, HVDC line, voltage level or substation makes it and what it contains disappear from every lookup, listing, bus, view and component in every variant, frees its identifiers, aliases and connection points for reuse, and leaves everything else unchanged. Removals that would leave dangling references (a converter station of an HVDC line, a voltage level or substation with branches to outside, a bus still used) are refused without effect.",
  ["histories", "inputs"], "every network and every sequence of removals and re-creations, in any variant",
  "Tests remove single objects from small fixed networks and check one or two counts.",
  ["src/iidm/Connectable.cpp", "src/iidm/VoltageLevel.cpp", "src/iidm/Substation.cpp", "src/iidm/HvdcLine.cpp", "src/iidm/NodeBreakerVoltageLevel.cpp", "src/iidm/BusBreakerVoltageLevel.cpp", "src/iidm/NetworkIndex.cpp"],
  [("removal of connectables", "src/iidm/Connectable.cpp remove"), ("container removal and its preconditions", "src/iidm/VoltageLevel.cpp, src/iidm/Substation.cpp, src/iidm/util/VoltageLevels.cpp"), ("topology removal", "removeTopology / removeBus / removeSwitch")],
  observe=["complete public state before and after"])
p("C12", "A refused creation leaves no trace and an accepted one has its values",
  "Creating an object with missing, inconsistent or conflicting data (undefined required number, limits out of order, unknown or incompatible connection point, occupied node, taken identifier, ...) is refused with a validation error that leaves the network exactly as it was. Creating it with valid data succeeds and every attribute reads back exactly as given, in all variants.",
  ["inputs", "histories"], "every kind of object and every combination of valid, boundary and invalid field values, in any network state, with several variants",
  "Tests violate one field at a time with one value and look at the message; side effects of the refusal are not checked.",
  ["src/iidm", "include/powsybl/iidm"],
  [("field validation", "src/iidm/ValidationUtils.cpp"), ("adders", "src/iidm/*Adder.cpp, include/powsybl/iidm/*Adder.hxx"), ("connection checks", "src/iidm/TerminalBuilder.cpp, attach()")],
  observe=["exception or object, complete public state before and after"])
p("C13", "A refused change leaves the value, an accepted one is read back",
  "Setting any attribute of an existing object to a value its documented constraints exclude (undefined or negative where not allowed, minimum above maximum, regulation without target, out-of-range position or count, ...) is refused and leaves the complete state unchanged; setting an allowed value succeeds, reads back exactly and changes no other attribute. So the constraints hold on every object at all times.",
  ["inputs", "histories"], "every settable attribute of every object type, any value including undefined, infinite, negative and boundary values, in every order, in every variant",
  "Tests call most setters once with a valid and once with an invalid value from the same starting state.",
  ["src/iidm", "extensions/iidm/src", "extensions/sld/src", "extensions/entsoe/src"],
  [("setter validation", "src/iidm/ValidationUtils.cpp and setters of each class")],
  observe=["public getters"])
p("C14", "Tap changers stay in range and give the current step's values",
  "The tap position of a ratio or phase tap changer is within its range in every variant at all times, step lookup by position returns the step created for that position (and an error outside the range), and the current step is the one of the working variant's position. Regulation can be active only with complete, valid regulation data (for ratio tap changers: those having load tap changing capabilities) and, in a given variant, on one tap changer of a transformer at most.",
  ["histories", "inputs"], "every tap changer (any low position, number of steps and values, on two- and three-winding transformers) and every sequence of position, range, regulation and variant changes, replacement and removal",
  "Tests use one three-step tap changer with fixed positions.",
  ["include/powsybl/iidm/TapChanger.hxx", "src/iidm/RatioTapChanger.cpp", "src/iidm/PhaseTapChanger.cpp", "src/iidm/ValidationUtils.cpp", "src/iidm/RatioTapChangerAdder.cpp", "src/iidm/PhaseTapChangerAdder.cpp"],
  [("position and regulation checks", "include/powsybl/iidm/TapChanger.hxx, src/iidm/ValidationUtils.cpp")],
  observe=["tap changer getters in every variant"])
p("C15", "Reactive limits and shunt models evaluate to their definition",
  "Reactive limits return the constant bounds, or the piecewise-linear interpolation of the capability curve's points (clamped to the end points outside the active power range), for any active power; points are unique by active power. A shunt's susceptance and conductance equal the per-section value times the section count, or the value of the selected section, with zero for no section, and section counts beyond the maximum are refused.",
  ["inputs"], "every curve (any number and order of points) and every active power; every linear and non-linear shunt model and section count, including after model changes",
  "Tests evaluate one curve at a few powers and one shunt of each kind.",
  ["src/iidm/ReactiveCapabilityCurve.cpp", "src/iidm/ReactiveCapabilityCurveAdder.cpp", "src/iidm/MinMaxReactiveLimits.cpp", "src/iidm/ReactiveLimitsHolder.cpp", "src/iidm/ShuntCompensatorLinearModel.cpp", "src/iidm/ShuntCompensatorNonLinearModel.cpp", "src/iidm/ShuntCompensator.cpp"],
  [("interpolation", "src/iidm/ReactiveCapabilityCurve.cpp"), ("section evaluation", "src/iidm/ShuntCompensator*.cpp")],
  observe=["getMinQ/getMaxQ, getB/getG"])
p("C16", "Loading limits and overloads follow from limits and flows",
  "Temporary limits are listed by decreasing acceptable duration with the values given, and invalid sets of limits are refused. Whether a permanent limit is exceeded, which temporary limit applies to the present loading, the allowed overload duration and the overloaded status of a branch always equal a direct evaluation from the limits, the reduction factor and the current, active or apparent power at each side.",
  ["inputs"], "every set of permanent and temporary limits of each type on each side, every flow (including undefined) and reduction factor",
  "Tests use one line with two temporary limits and three flow values.",
  ["src/iidm/Branch.cpp", "src/iidm/util/LimitViolationUtils.cpp", "src/iidm/LoadingLimits.cpp", "include/powsybl/iidm/LoadingLimitsAdder.hxx", "src/iidm/OperationalLimitsHolder.cpp"],
  [("limit checks", "src/iidm/util/LimitViolationUtils.cpp, src/iidm/Branch.cpp"), ("limit validation", "src/iidm/ValidationUtils.cpp, include/powsybl/iidm/LoadingLimitsAdder.hxx")],
  observe=["Branch check methods, limits getters"])
p("C17", "Derived electrical quantities obey the circuit equations",
  "The state computed at the far end of a line, transformer or dangling line (voltage, angle, active and reactive power), boundary values of dangling and tie lines, terminal currents, bus power sums and aggregated tie-line parameters equal those of an independent circuit calculation from the same parameters, and going to the other side and back returns the starting state. Undefined inputs give undefined outputs and never wrong numbers.",
  ["inputs"], "every set of electrical parameters (including zero impedance, shunt admittances, ratios and phase shifts, generation on dangling lines) and every terminal state, including undefined values",
  "Tests compare a few hand-computed operating points.",
  ["src/iidm/util/SV.cpp", "src/iidm/util/LinkData.cpp", "src/iidm/BoundaryImpl.cpp", "src/iidm/DanglingLineBoundary.cpp", "src/iidm/HalfLineBoundary.cpp", "src/iidm/TieLine.cpp", "src/iidm/Terminal.cpp", "src/iidm/Bus.cpp"],
  [("other-side computation", "src/iidm/util/SV.cpp"), ("two-port matrices", "src/iidm/util/LinkData.cpp"), ("tie line merge", "src/iidm/TieLine.cpp")],
  observe=["SV getters, Boundary getters, Terminal::getI, TieLine getters"])
p("C18", "Extensions attach to one object, are found by type and name, and keep state",
  "Each object has at most one extension of a given type and name; it is found by either key, refers back to its owner, is replaced or removed completely, and never affects other objects. Its data reads back as given, invalid data is refused without effect, and its state is kept per variant where it is declared to vary.",
  ["histories", "inputs"], "every extension type shipped with the library on every object type it applies to, every sequence of attach, change, replace, remove and variant operations, any values",
  "Each extension has one test with one set of values and one fixed variant sequence.",
  ["src/iidm/Extendable.cpp", "src/iidm/Extension.cpp", "src/iidm/AbstractMultiVariantIdentifiableExtension.cpp", "src/iidm/extensions", "extensions/iidm/src", "extensions/sld/src", "extensions/entsoe/src"],
  [("extension maps", "src/iidm/Extendable.cpp"), ("per-variant extension state", "src/iidm/AbstractMultiVariantIdentifiableExtension.cpp")],
  observe=["Extendable public methods, extension getters"])
p("C19", "Moving a network keeps it complete and usable",
  "A network obtained by moving another one has exactly the same content (objects, identifiers, aliases, properties, extensions, variants, working variant, topology and components), and every later operation on it - lookup, edit, variant change, topology query, export - behaves as it would have on the original.",
  ["histories", "inputs"], "every network content and every history before and after the move",
  "Tests move one network and check its identifier.",
  ["src/iidm/Network.cpp", "src/iidm/NetworkIndex.cpp", "src/iidm/NetworkRef.cpp", "src/iidm/VariantManager.cpp", "src/iidm/Extendable.cpp", "src/iidm/Identifiable.cpp"],
  [("move constructors", "Network, NetworkIndex, VariantManager, Identifiable, Extendable"), ("network back references", "src/iidm/NetworkRef.cpp")],
  observe=["complete public state before and after"])
p("C20", "The graph library behaves like a mathematical multigraph",
  "Vertices, edges, their attached objects, traversal reachability, path search and component numbering of the graph library equal those of a plain reference multigraph after any history of insertions and removals; freed vertex and edge numbers may be reused but never alias a live one. Traversals visit exactly what the visitor's answers allow, and requests on missing vertices or edges fail without effect.",
  ["histories", "inputs"], "every sequence of graph operations (parallel edges, self loops, sparse numbering, removals) and every visitor",
  "Tests build two or three small fixed graphs.",
  ["include/powsybl/math/UndirectedGraph.hxx", "include/powsybl/math/UndirectedGraph.hpp", "src/math/GraphUtil.cpp", "include/powsybl/math/UndirectedGraphRanges.hpp"],
  [("adjacency cache", "include/powsybl/math/UndirectedGraph.hxx"), ("components", "src/math/GraphUtil.cpp")],
  observe=["graph public methods"])
p("C21", "Equipment traversal reaches exactly the terminals the walk allows",
  "Traversing from a terminal asks the visitor about every terminal reachable under its answers exactly once, and about no other; an accepted switch is crossed at most once, a refused one never, and accepted terminals of branches and transformers lead to their other ends. In a bus/breaker level the walk goes on beyond a bus that has no terminal or of which one terminal is accepted. Node-level traversal, visiting the equipment of a level or bus, and finding a terminal by equipment order also report exactly the reachable or attached objects.",
  ["inputs"], "every network, every start terminal or node and every visitor decision function",
  "Tests traverse from a few terminals of a fixed network with constant answers.",
  ["src/iidm/NodeTerminal.cpp", "src/iidm/BusTerminal.cpp", "src/iidm/NodeBreakerVoltageLevel.cpp", "src/iidm/BusBreakerVoltageLevel.cpp", "src/iidm/AbstractTerminalTopologyVisitor.cpp", "src/iidm/util/TerminalFinder.cpp"],
  [("terminal traversal", "NodeBreakerVoltageLevel::traverse, BusBreakerVoltageLevel::traverse"), ("topology visitors", "src/iidm/VoltageLevel.cpp, src/iidm/Bus.cpp")],
  observe=["visitor callbacks"])
p("C22", "Text, number, date and mapping codecs are lossless",
  "Text written as XML content or attributes is read back unchanged, numbers keep their exact value, dates survive print-then-parse and compare as instants, property maps and export or import options return what was set, each enumeration value has its own name and converts back, and an anonymizer maps distinct strings to distinct codes, back to the originals, also after its table is saved and loaded. What is not a number, an impossible calendar date, an unknown enumeration name or an unknown code is refused with an error.",
  ["inputs"], "every string (any Unicode text, separators, XML specials, whitespace), every finite, infinite or undefined number, every date in the supported range, every enumeration value, every sequence of anonymize / deanonymize / save / load calls",
  "Tests check a few fixed strings, one date and one mapping table.",
  ["src/xml", "src/stdcxx", "src/iidm/converter/SimpleAnonymizer.cpp", "include/powsybl/iidm/Enum.hxx"],
  [("XML streams", "src/xml/XmlStreamWriter.cpp, src/xml/XmlStreamReader.cpp"), ("date and properties", "src/stdcxx/DateTime.cpp, src/stdcxx/Properties.cpp"), ("anonymizer", "src/iidm/converter/SimpleAnonymizer.cpp"), ("enums", "include/powsybl/iidm/Enum.hxx")],
  observe=["decoded value equals encoded value"])
p("C23", "Asking a network never changes it nor any later answer",
  "Queries, exports, listings, traversals, lookups of absent or wrongly typed objects, computations of buses, components, flows and limits, runs for each variant, creations begun but never added, and documents read into another network leave the complete state of a network in every variant, its working variant, the outcome of every later operation and its documents exactly as they would have been without them; the same question asked twice gives the same answer.",
  ["histories", "inputs"], "every history of operations and every set of questions put between its steps, in every variant and both kinds of voltage levels",
  "Tests put a handful of questions to fixed networks and do not compare the network with one that was not asked.",
  ["src/iidm/BusBreakerVoltageLevelTopology.cpp", "src/iidm/NodeBreakerVoltageLevelTopology.cpp", "src/iidm/NodeBreakerVoltageLevelBusNamingStrategy.cpp", "src/iidm/AbstractComponentsManager.cpp", "src/iidm/NetworkViews.cpp", "src/iidm/NetworkIndex.cpp", "src/iidm/VariantManager.cpp", "src/iidm/Network.cpp", "src/iidm/converter/xml", "include/powsybl/math/UndirectedGraph.hxx"],
  [("lazy caches", "calculated buses, merged buses, components, adjacency lists"), ("adders", "src/iidm/*Adder.cpp"), ("export", "src/iidm/converter/xml")],
  observe=["outcomes, documents and complete public state, with and without the questions"])
p("C24", "No history of public calls touches memory that is not the network's",
  "Whatever the history of creations, changes, switching, connections, removals, variant operations, extensions, moves of the network, questions and exports, whether requests are accepted or refused, no freed, uninitialised or foreign memory is read or written, no undefined arithmetic or conversion happens, no call aborts or runs forever, and destroying the network gives back all the memory it used. (Equipment whose terminal regulates another one is removed after it.)",
  ["histories", "inputs"], "every history of public calls with valid and invalid arguments on one network, in every variant",
  "Tests run short fixed histories without a memory checker and seldom remove anything.",
  ["src/iidm", "src/math", "src/iidm/Network.cpp", "src/iidm/NetworkIndex.cpp", "src/iidm/VariantManager.cpp", "src/iidm/AbstractMultiVariantIdentifiableExtension.cpp", "src/iidm/Extendable.cpp", "include/powsybl/math/UndirectedGraph.hxx", "include/powsybl/iidm/VariantArray.hxx"],
  [("ownership and back references", "NetworkIndex, VoltageLevel, Terminal, HvdcLine"), ("per-variant arrays", "*Variant*.cpp, reduceVariantArraySize / extendVariantArraySize"), ("calculated buses", "*Topology.cpp, *BusCache.cpp")],
  observe=["sanitizer reports, aborts, time, memory in use after repeated histories"])
p("C25", "Documents that mean the same are read as the same network",
  "Changing the order of attributes or of independent sibling elements (substations, levels, equipment of a level, switches, branches, limits, extensions), white space, comments and processing instructions between elements, quotes, character references, CDATA sections or comments inside a text, spellings of a number, empty elements written opened and closed, the iidm prefix for the default namespace, a schema location, a byte order mark or the XML declaration never changes whether a document is accepted nor the network that is read.",
  ["inputs"], "every document of every schema version and every equivalent way of writing it",
  "Tests read each reference document in the one form in which it is stored.",
  ["src/xml/XmlStreamReader.cpp", "src/iidm/converter/xml", "extensions/iidm/src", "extensions/sld/src", "extensions/entsoe/src"],
  [("reader primitives", "src/xml/XmlStreamReader.cpp"), ("element loops", "src/iidm/converter/xml/*Xml.cpp"), ("deferred references", "NetworkXmlReaderContext end tasks")],
  observe=["accepted or refused, complete public state of the network read"])
p("C26", "A log tells what happened and changes nothing else",
  "Whatever loggers are installed (none, no-op, console, container or user written; any enabled levels), no call on a network, its variants, a document or a conversion behaves differently: same results, refusals, state and exported text, for every id, file name and text, including those with format characters. A logger of a name or of a parent name receives exactly the messages of its enabled levels, in order, with the parameters inserted in the text; a removed logger receives nothing any more.",
  ["inputs", "history"], "every history of calls, every text and every set of loggers",
  "Tests run with one logger and a few fixed messages, most of them with none at all.",
  ["include/powsybl/logging", "src/logging", "src/iidm"],
  [("logger hierarchy", "src/logging/LoggerFactory.cpp"), ("message text", "include/powsybl/logging/Logger.hxx"), ("loggers", "src/logging/ConsoleLogger.cpp, ContainerLogger.cpp")],
  observe=["results, refusals, state and export with and without loggers; messages received"])
p("C27", "Networks do not depend on each other nor on their thread",
  "Whatever happens to other networks of the process - created, changed, queried, written, read or destroyed in between or at the same time in other threads, even with the same identifiers - the outcomes, refusals, answers, documents and state of a network are those it has alone. Different networks can be used by different threads at the same time without data races, and a network can be handed over from one thread to another.",
  ["history", "schedule"], "every set of histories and every way of interleaving them",
  "Tests use one network at a time in one thread.",
  ["src/iidm", "src/xml", "src/iidm/converter", "src/logging", "src/iidm/ExtensionProviders.cpp", "src/iidm/NetworkIndex.cpp", "include/powsybl/math/UndirectedGraph.hxx"],
  [("process-wide state", "static variables, singletons of readers and writers, extension providers, loggers"), ("caches", "NetworkIndex, UndirectedGraph adjacency lists, calculated buses"), ("working variant", "src/iidm/MultipleVariantContext.cpp, ThreadLocalMultipleVariantContext.cpp")],
  observe=["outcomes, answers, documents and states of each history, alone and among others", "ThreadSanitizer reports"])
p("C28", "A damaged or incomplete document is refused, never read in part",
  "A document that is cut before its end, that is not well-formed XML, that lacks an attribute its schema requires, that has something else than a number or than a value of the list where one is expected, that refers to a bus, voltage level, converter station, terminal or equipment it does not hold, that uses an identifier twice, that has an unknown element in the description of the network, or that uses a part of the schema that came after the version it declares is refused with an error; it is never read as a smaller or different network.",
  ["input"], "every document and every place where it is damaged",
  "Tests read well-formed documents and a few refused ones.",
  ["src/iidm/converter/xml", "src/xml", "extensions/*/src"],
  [("reader", "src/xml/XmlStreamReader.cpp"), ("versions", "src/iidm/converter/xml/IidmXmlUtil.cpp"), ("elements", "src/iidm/converter/xml/*Xml.cpp"), ("references", "src/iidm/converter/xml/TerminalRefXml.cpp, AbstractConnectableXml.hxx")],
  observe=["acceptance of a document before and after a damage"])
p("C29", "A read or a write that fails is reported and changes nothing",
  "When a document, or the mapping file of an anonymized document, cannot be written completely - a full device, a missing directory, a stream that fails, throws or had failed before, at any byte or only when it is flushed, with or without stream exceptions enabled - or when its source ends or fails before the end of the document, the operation ends with an exception that its caller can catch; it succeeds when every byte went through, however few at a time. What was written is always a beginning of the document. The network and the documents written afterwards are unchanged, and reading changes no file.",
  ["input", "fault point"], "every document and every place and kind of fault",
  "Tests write to and read from memory and working files.",
  ["src/xml", "src/iidm/converter/xml/NetworkXml.cpp", "src/iidm/Network.cpp", "src/iidm/converter/FakeAnonymizer.cpp", "src/iidm/converter/SimpleAnonymizer.cpp"],
  [("writer", "src/xml/XmlStreamWriter.cpp"), ("reader", "src/xml/XmlStreamReader.cpp"), ("files", "src/iidm/Network.cpp, src/iidm/converter/xml/NetworkXml.cpp"), ("mapping", "src/iidm/converter/SimpleAnonymizer.cpp")],
  observe=["outcome of the operation against the bytes that went through", "bytes written", "state and document of the network afterwards"])
p("C30", "An adder creates what it was told, whatever the way it was told",
  "What an adder creates - an object, a limit, a tap changer, a reactive limit, a shunt model or an extension - is decided by the values the adder was last given and the inner items it was given, and by the network alone: not by the order in which the values came, by values that were replaced, by an earlier creation or refusal by the same adder, by its being a copy of another adder, by the end of that other adder, or by an inner adder having been ended more than once. Each creation has the same outcome as that of a new adder told the same, and neither a refusal nor the end of an adder changes the network.",
  ["input", "history"], "every kind of adder and every sequence of values, inner items, creations and copies",
  "Tests give each adder its values once, in the usual order, and create once.",
  ["src/iidm", "include/powsybl/iidm", "extensions/*/src"],
  [("objects", "src/iidm/*Adder.cpp, include/powsybl/iidm/*Adder.hxx"), ("inner adders", "src/iidm/ThreeWindingsTransformerAdder.cpp, TieLineAdder.cpp, DanglingLineAdder.cpp, ShuntCompensatorAdder.cpp"), ("limits", "include/powsybl/iidm/LoadingLimitsAdder.hxx"), ("tap changers", "src/iidm/RatioTapChangerAdder.cpp, PhaseTapChangerAdder.cpp"), ("reactive limits", "src/iidm/ReactiveCapabilityCurveAdder.cpp"), ("extensions", "extensions/*/src/*Adder.cpp")],
  observe=["outcome of each creation", "state and document of both networks"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=True) + "\n")
print(len(P), "properties;", [x["id"] for x in P if len(x["title"]) > 80])
