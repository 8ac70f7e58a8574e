From f34f5dfec3aad15524cb38f80e36bedf8aa94817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:52 +0000
Subject: [PATCH 01/59] fix: a refused creation must not leave the object in
 the network

The injections were registered in the network before their terminal was built and attached,
and the occupancy of the nodes was only checked after the registration.
---
 src/iidm/BatteryAdder.cpp                  |  5 +++--
 src/iidm/DanglingLineAdder.cpp             |  5 +++--
 src/iidm/GeneratorAdder.cpp                |  5 +++--
 src/iidm/LccConverterStationAdder.cpp      |  5 +++--
 src/iidm/LineAdder.cpp                     | 12 +++++-----
 src/iidm/LoadAdder.cpp                     |  5 +++--
 src/iidm/NodeBreakerVoltageLevel.cpp       | 26 ++++++++++++++++------
 src/iidm/ShuntCompensatorAdder.cpp         |  5 +++--
 src/iidm/StaticVarCompensatorAdder.cpp     |  5 +++--
 src/iidm/ThreeWindingsTransformerAdder.cpp | 17 +++++++-------
 src/iidm/TieLineAdder.cpp                  | 12 +++++-----
 src/iidm/TwoWindingsTransformerAdder.cpp   | 12 +++++-----
 src/iidm/VscConverterStationAdder.cpp      |  5 +++--
 13 files changed, 69 insertions(+), 50 deletions(-)

diff --git a/src/iidm/BatteryAdder.cpp b/src/iidm/BatteryAdder.cpp
index 20c7a74..c9d7b72 100644
--- a/src/iidm/BatteryAdder.cpp
+++ b/src/iidm/BatteryAdder.cpp
@@ -30,9 +30,10 @@ Battery& BatteryAdder::add() {
     checkActivePowerLimits(*this, m_minP, m_maxP);
 
     std::unique_ptr<Battery> ptrBattery = stdcxx::make_unique<Battery>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_p0, m_q0, m_minP, m_maxP);
-    auto& battery = getNetwork().checkAndAdd<Battery>(std::move(ptrBattery));
+    Terminal& terminal = ptrBattery->addTerminal(checkAndGetTerminal());
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = battery.addTerminal(checkAndGetTerminal());
+    auto& battery = getNetwork().checkAndAdd<Battery>(std::move(ptrBattery));
     getVoltageLevel().attach(terminal, false);
 
     return battery;
diff --git a/src/iidm/DanglingLineAdder.cpp b/src/iidm/DanglingLineAdder.cpp
index 3ab1eb9..66db5f8 100644
--- a/src/iidm/DanglingLineAdder.cpp
+++ b/src/iidm/DanglingLineAdder.cpp
@@ -34,9 +34,10 @@ DanglingLine& DanglingLineAdder::add() {
 
     std::unique_ptr<DanglingLine> ptrDanglingLine = stdcxx::make_unique<DanglingLine>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(),
                                                                                       m_p0, m_q0, m_r, m_x, m_g, m_b, m_ucteXnodeCode, std::move(ptrGeneration));
-    auto& danglingLine = getNetwork().checkAndAdd<DanglingLine>(std::move(ptrDanglingLine));
+    Terminal& terminal = ptrDanglingLine->addTerminal(checkAndGetTerminal());
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = danglingLine.addTerminal(checkAndGetTerminal());
+    auto& danglingLine = getNetwork().checkAndAdd<DanglingLine>(std::move(ptrDanglingLine));
     getVoltageLevel().attach(terminal, false);
 
     return danglingLine;
diff --git a/src/iidm/GeneratorAdder.cpp b/src/iidm/GeneratorAdder.cpp
index 877c6b5..cabbec3 100644
--- a/src/iidm/GeneratorAdder.cpp
+++ b/src/iidm/GeneratorAdder.cpp
@@ -37,9 +37,10 @@ Generator& GeneratorAdder::add() {
     std::unique_ptr<Generator> ptrGenerator = stdcxx::make_unique<Generator>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(),
         m_energySource, m_minP, m_maxP, *m_voltageRegulatorOn, regulatingTerminal,
         m_activePowerSetpoint, m_reactivePowerSetpoint, m_voltageSetpoint, m_ratedS);
-    auto& generator = getNetwork().checkAndAdd(std::move(ptrGenerator));
+    Terminal& terminal = ptrGenerator->addTerminal(std::move(terminalPtr));
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = generator.addTerminal(std::move(terminalPtr));
+    auto& generator = getNetwork().checkAndAdd(std::move(ptrGenerator));
     getVoltageLevel().attach(terminal, false);
 
     return generator;
diff --git a/src/iidm/LccConverterStationAdder.cpp b/src/iidm/LccConverterStationAdder.cpp
index 9d33d45..e1883be 100644
--- a/src/iidm/LccConverterStationAdder.cpp
+++ b/src/iidm/LccConverterStationAdder.cpp
@@ -24,9 +24,10 @@ LccConverterStation& LccConverterStationAdder::add() {
     validate();
 
     std::unique_ptr<LccConverterStation> ptrLcc = stdcxx::make_unique<LccConverterStation>(checkAndGetUniqueId(), getName(), isFictitious(), getLossFactor(), m_powerFactor);
-    auto& lcc = getNetwork().checkAndAdd<LccConverterStation>(std::move(ptrLcc));
+    Terminal& terminal = ptrLcc->addTerminal(checkAndGetTerminal());
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = lcc.addTerminal(checkAndGetTerminal());
+    auto& lcc = getNetwork().checkAndAdd<LccConverterStation>(std::move(ptrLcc));
     getVoltageLevel().attach(terminal, false);
 
     return lcc;
diff --git a/src/iidm/LineAdder.cpp b/src/iidm/LineAdder.cpp
index cddfedb..0edfff9 100644
--- a/src/iidm/LineAdder.cpp
+++ b/src/iidm/LineAdder.cpp
@@ -37,15 +37,15 @@ Line& LineAdder::add() {
     checkR(*this, m_r);
     checkX(*this, m_x);
 
+    std::unique_ptr<Line> ptrLine = stdcxx::make_unique<Line>(checkAndGetUniqueId(), getName(), isFictitious(), m_r, m_x, m_g1, m_b1, m_g2, m_b2);
+    Terminal& terminal1 = ptrLine->addTerminal(std::move(ptrTerminal1));
+    Terminal& terminal2 = ptrLine->addTerminal(std::move(ptrTerminal2));
+
     // check that the line is attachable on both side
-    voltageLevel1.attach(*ptrTerminal1, true);
-    voltageLevel2.attach(*ptrTerminal2, true);
+    voltageLevel1.attach(terminal1, true);
+    voltageLevel2.attach(terminal2, true);
 
-    std::unique_ptr<Line> ptrLine = stdcxx::make_unique<Line>(checkAndGetUniqueId(), getName(), isFictitious(), m_r, m_x, m_g1, m_b1, m_g2, m_b2);
     auto& line = m_network.checkAndAdd<Line>(std::move(ptrLine));
-
-    Terminal& terminal1 = line.addTerminal(std::move(ptrTerminal1));
-    Terminal& terminal2 = line.addTerminal(std::move(ptrTerminal2));
     voltageLevel1.attach(terminal1, false);
     voltageLevel2.attach(terminal2, false);
 
diff --git a/src/iidm/LoadAdder.cpp b/src/iidm/LoadAdder.cpp
index 24ff9ed..4901a22 100644
--- a/src/iidm/LoadAdder.cpp
+++ b/src/iidm/LoadAdder.cpp
@@ -27,9 +27,10 @@ Load& LoadAdder::add() {
     checkQ0(*this, m_q0);
 
     std::unique_ptr<Load> ptrLoad = stdcxx::make_unique<Load>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_loadType, m_p0, m_q0);
-    auto& load = getNetwork().checkAndAdd<Load>(std::move(ptrLoad));
+    Terminal& terminal = ptrLoad->addTerminal(checkAndGetTerminal());
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = load.addTerminal(checkAndGetTerminal());
+    auto& load = getNetwork().checkAndAdd<Load>(std::move(ptrLoad));
     getVoltageLevel().attach(terminal, false);
 
     return load;
diff --git a/src/iidm/NodeBreakerVoltageLevel.cpp b/src/iidm/NodeBreakerVoltageLevel.cpp
index d4d080a..ff052c8 100644
--- a/src/iidm/NodeBreakerVoltageLevel.cpp
+++ b/src/iidm/NodeBreakerVoltageLevel.cpp
@@ -54,17 +54,29 @@ void NodeBreakerVoltageLevel::allocateVariantArrayElement(const std::set<unsigne
 
 void NodeBreakerVoltageLevel::attach(Terminal& terminal, bool test) {
     checkTerminal(terminal);
-    if (!test) {
-        auto& nodeTerminal = dynamic_cast<NodeTerminal&>(terminal);
-        unsigned long node = nodeTerminal.getNode();
-        m_graph.addVertexIfNotPresent(node);
 
-        const stdcxx::Reference<NodeTerminal>& tmp = m_graph.getVertexObject(node);
-        if (static_cast<bool>(tmp)) {
+    auto& nodeTerminal = dynamic_cast<NodeTerminal&>(terminal);
+    unsigned long node = nodeTerminal.getNode();
+    const auto& checkNode = [this, &terminal, &node](const Terminal& other) {
+        if (!stdcxx::areSame(other, terminal)) {
             throw ValidationException(terminal.getConnectable(),
                 stdcxx::format("An equipment (%1%) is already connected to the node %2% of voltage level %3%",
-                                tmp.get().getConnectable().get().getId(), node, getId()));
+                                other.getConnectable().get().getId(), node, getId()));
+        }
+    };
+
+    if (m_graph.vertexExists(node) && static_cast<bool>(m_graph.getVertexObject(node))) {
+        checkNode(m_graph.getVertexObject(node).get());
+    }
+    // the other ends of the same equipment may not be attached yet
+    for (const Terminal& other : terminal.getConnectable().get().getTerminals()) {
+        if (stdcxx::areSame(other.getVoltageLevel(), *this) && stdcxx::isInstanceOf<NodeTerminal>(other) && dynamic_cast<const NodeTerminal&>(other).getNode() == node) {
+            checkNode(other);
         }
+    }
+
+    if (!test) {
+        m_graph.addVertexIfNotPresent(node);
 
         // create the link terminal <-> graph vertex
         m_graph.setVertexObject(node, stdcxx::ref(nodeTerminal));
diff --git a/src/iidm/ShuntCompensatorAdder.cpp b/src/iidm/ShuntCompensatorAdder.cpp
index 99cd059..5c113d5 100644
--- a/src/iidm/ShuntCompensatorAdder.cpp
+++ b/src/iidm/ShuntCompensatorAdder.cpp
@@ -34,9 +34,10 @@ ShuntCompensator& ShuntCompensatorAdder::add() {
     Terminal& regulatingTerminal = m_regulatingTerminal ? m_regulatingTerminal.get() : *ptrTerminal;
     std::unique_ptr<ShuntCompensator> ptrShunt = stdcxx::make_unique<ShuntCompensator>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_modelBuilder->build(),
                                                                                        *m_sectionCount, regulatingTerminal, m_voltageRegulatorOn, m_targetV, m_targetDeadband);
-    auto& shunt = getNetwork().checkAndAdd<ShuntCompensator>(std::move(ptrShunt));
+    Terminal& terminal = ptrShunt->addTerminal(std::move(ptrTerminal));
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = shunt.addTerminal(std::move(ptrTerminal));
+    auto& shunt = getNetwork().checkAndAdd<ShuntCompensator>(std::move(ptrShunt));
     getVoltageLevel().attach(terminal, false);
 
     return shunt;
diff --git a/src/iidm/StaticVarCompensatorAdder.cpp b/src/iidm/StaticVarCompensatorAdder.cpp
index 751e139..d3c3b21 100644
--- a/src/iidm/StaticVarCompensatorAdder.cpp
+++ b/src/iidm/StaticVarCompensatorAdder.cpp
@@ -31,9 +31,10 @@ StaticVarCompensator& StaticVarCompensatorAdder::add() {
     Terminal& regulatingTerminal = m_regulatingTerminal ? m_regulatingTerminal.get() : *ptrTerminal;
     std::unique_ptr<StaticVarCompensator> ptrSvc = stdcxx::make_unique<StaticVarCompensator>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_bMin, m_bMax, m_voltageSetpoint,
         m_reactivePowerSetpoint, *m_regulationMode, regulatingTerminal);
-    auto& svc = getNetwork().checkAndAdd<StaticVarCompensator>(std::move(ptrSvc));
+    Terminal& terminal = ptrSvc->addTerminal(std::move(ptrTerminal));
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = svc.addTerminal(std::move(ptrTerminal));
+    auto& svc = getNetwork().checkAndAdd<StaticVarCompensator>(std::move(ptrSvc));
     getVoltageLevel().attach(terminal, false);
 
     return svc;
diff --git a/src/iidm/ThreeWindingsTransformerAdder.cpp b/src/iidm/ThreeWindingsTransformerAdder.cpp
index 79332c7..dfd4e39 100644
--- a/src/iidm/ThreeWindingsTransformerAdder.cpp
+++ b/src/iidm/ThreeWindingsTransformerAdder.cpp
@@ -45,11 +45,6 @@ ThreeWindingsTransformer& ThreeWindingsTransformerAdder::add() {
     VoltageLevel& voltageLevel3 = m_adder3->checkAndGetVoltageLevel();
     std::unique_ptr<Terminal> ptrTerminal3 = m_adder3->checkAndGetTerminal(voltageLevel3);
 
-    // check that the 3 windings transformer is attachable on the 3 sides
-    voltageLevel1.attach(*ptrTerminal1, true);
-    voltageLevel2.attach(*ptrTerminal2, true);
-    voltageLevel3.attach(*ptrTerminal3, true);
-
     // Define ratedU0 equal to ratedU1 if it has not been defined
     if (std::isnan(m_ratedU0)) {
         m_ratedU0 = leg1.getRatedU();
@@ -57,12 +52,16 @@ ThreeWindingsTransformer& ThreeWindingsTransformerAdder::add() {
     }
 
     std::unique_ptr<ThreeWindingsTransformer> ptrTransformer = stdcxx::make_unique<ThreeWindingsTransformer>(checkAndGetUniqueId(), getName(), isFictitious(), std::move(leg1), std::move(leg2), std::move(leg3), m_ratedU0);
-    auto& transformer = getNetwork().checkAndAdd<ThreeWindingsTransformer>(std::move(ptrTransformer));
+    Terminal& terminal1 = ptrTransformer->addTerminal(std::move(ptrTerminal1));
+    Terminal& terminal2 = ptrTransformer->addTerminal(std::move(ptrTerminal2));
+    Terminal& terminal3 = ptrTransformer->addTerminal(std::move(ptrTerminal3));
 
-    Terminal& terminal1 = transformer.addTerminal(std::move(ptrTerminal1));
-    Terminal& terminal2 = transformer.addTerminal(std::move(ptrTerminal2));
-    Terminal& terminal3 = transformer.addTerminal(std::move(ptrTerminal3));
+    // check that the 3 windings transformer is attachable on the 3 sides
+    voltageLevel1.attach(terminal1, true);
+    voltageLevel2.attach(terminal2, true);
+    voltageLevel3.attach(terminal3, true);
 
+    auto& transformer = getNetwork().checkAndAdd<ThreeWindingsTransformer>(std::move(ptrTransformer));
     voltageLevel1.attach(terminal1, false);
     voltageLevel2.attach(terminal2, false);
     voltageLevel3.attach(terminal3, false);
diff --git a/src/iidm/TieLineAdder.cpp b/src/iidm/TieLineAdder.cpp
index 1167fb1..41a8a5a 100644
--- a/src/iidm/TieLineAdder.cpp
+++ b/src/iidm/TieLineAdder.cpp
@@ -39,15 +39,15 @@ TieLine& TieLineAdder::add() {
     TieLine::HalfLine half1 = m_halfLineAdder1->build();
     TieLine::HalfLine half2 = m_halfLineAdder2->build();
 
+    std::unique_ptr<TieLine> ptrTieLine = stdcxx::make_unique<TieLine>(checkAndGetUniqueId(), getName(), isFictitious(), m_ucteXnodeCode, std::move(half1), std::move(half2));
+    Terminal& terminal1 = ptrTieLine->addTerminal(std::move(ptrTerminal1));
+    Terminal& terminal2 = ptrTieLine->addTerminal(std::move(ptrTerminal2));
+
     // check that the line is attachable on both side
-    voltageLevel1.attach(*ptrTerminal1, true);
-    voltageLevel2.attach(*ptrTerminal2, true);
+    voltageLevel1.attach(terminal1, true);
+    voltageLevel2.attach(terminal2, true);
 
-    std::unique_ptr<TieLine> ptrTieLine = stdcxx::make_unique<TieLine>(checkAndGetUniqueId(), getName(), isFictitious(), m_ucteXnodeCode, std::move(half1), std::move(half2));
     auto& tieLine = m_network.checkAndAdd<TieLine>(std::move(ptrTieLine));
-
-    Terminal& terminal1 = tieLine.addTerminal(std::move(ptrTerminal1));
-    Terminal& terminal2 = tieLine.addTerminal(std::move(ptrTerminal2));
     voltageLevel1.attach(terminal1, false);
     voltageLevel2.attach(terminal2, false);
 
diff --git a/src/iidm/TwoWindingsTransformerAdder.cpp b/src/iidm/TwoWindingsTransformerAdder.cpp
index 8a9f7c6..e77a8e1 100644
--- a/src/iidm/TwoWindingsTransformerAdder.cpp
+++ b/src/iidm/TwoWindingsTransformerAdder.cpp
@@ -40,15 +40,15 @@ TwoWindingsTransformer& TwoWindingsTransformerAdder::add() {
     checkRatedU2(*this, m_ratedU2);
     checkRatedS(*this, m_ratedS);
 
+    std::unique_ptr<TwoWindingsTransformer> ptrTransformer = stdcxx::make_unique<TwoWindingsTransformer>(checkAndGetUniqueId(), getName(), isFictitious(), m_substation, m_r, m_x, m_g, m_b, m_ratedU1, m_ratedU2, m_ratedS);
+    Terminal& terminal1 = ptrTransformer->addTerminal(std::move(ptrTerminal1));
+    Terminal& terminal2 = ptrTransformer->addTerminal(std::move(ptrTerminal2));
+
     // check that the two windings transformer is attachable on both side
-    voltageLevel1.attach(*ptrTerminal1, true);
-    voltageLevel2.attach(*ptrTerminal2, true);
+    voltageLevel1.attach(terminal1, true);
+    voltageLevel2.attach(terminal2, true);
 
-    std::unique_ptr<TwoWindingsTransformer> ptrTransformer = stdcxx::make_unique<TwoWindingsTransformer>(checkAndGetUniqueId(), getName(), isFictitious(), m_substation, m_r, m_x, m_g, m_b, m_ratedU1, m_ratedU2, m_ratedS);
     auto& transformer = getNetwork().checkAndAdd<TwoWindingsTransformer>(std::move(ptrTransformer));
-
-    Terminal& terminal1 = transformer.addTerminal(std::move(ptrTerminal1));
-    Terminal& terminal2 = transformer.addTerminal(std::move(ptrTerminal2));
     voltageLevel1.attach(terminal1, false);
     voltageLevel2.attach(terminal2, false);
 
diff --git a/src/iidm/VscConverterStationAdder.cpp b/src/iidm/VscConverterStationAdder.cpp
index c1a188c..9843211 100644
--- a/src/iidm/VscConverterStationAdder.cpp
+++ b/src/iidm/VscConverterStationAdder.cpp
@@ -24,9 +24,10 @@ VscConverterStation& VscConverterStationAdder::add() {
     validate();
 
     std::unique_ptr<VscConverterStation> ptrVsc = stdcxx::make_unique<VscConverterStation>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), getLossFactor(), *m_voltageRegulatorOn, m_reactivePowerSetpoint, m_voltageSetpoint);
-    auto& vsc = getNetwork().checkAndAdd<VscConverterStation>(std::move(ptrVsc));
+    Terminal& terminal = ptrVsc->addTerminal(checkAndGetTerminal());
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = vsc.addTerminal(checkAndGetTerminal());
+    auto& vsc = getNetwork().checkAndAdd<VscConverterStation>(std::move(ptrVsc));
     getVoltageLevel().attach(terminal, false);
 
     return vsc;
-- 
2.43.0


From 0833712b0f5b6dc35c9bef511a2158e17546775a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 02/59] fix: adding or removing buses, switches and internal
 connections invalidates the calculated topology of all variants

---
 src/iidm/BusBreakerVoltageLevel.cpp  | 18 ++++++++++++++++++
 src/iidm/NodeBreakerVoltageLevel.cpp | 14 ++++++++++++--
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/iidm/BusBreakerVoltageLevel.cpp b/src/iidm/BusBreakerVoltageLevel.cpp
index 4f59035..fe0af77 100644
--- a/src/iidm/BusBreakerVoltageLevel.cpp
+++ b/src/iidm/BusBreakerVoltageLevel.cpp
@@ -37,6 +37,9 @@ Bus& BusBreakerVoltageLevel::addBus(std::unique_ptr<ConfiguredBus>&& ptrBus) {
     unsigned long node = m_graph.addVertex();
     m_graph.setVertexObject(node, stdcxx::ref(bus));
     m_buses.insert(std::make_pair(bus.getId(), node));
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
 
     return bus;
 }
@@ -48,6 +51,9 @@ Switch& BusBreakerVoltageLevel::addSwitch(std::unique_ptr<Switch>&& ptrSwitch, c
     Switch& aSwitch = getNetwork().checkAndAdd(std::move(ptrSwitch));
     unsigned long e = m_graph.addEdge(v1, v2, stdcxx::ref(aSwitch));
     m_switches.insert(std::make_pair(aSwitch.getId(), e));
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
 
     return aSwitch;
 }
@@ -303,6 +309,9 @@ void BusBreakerVoltageLevel::removeAllBuses() {
             throw ValidationException(*this, stdcxx::format("Cannot remove bus '%1%' due to connected equipments", bus.getId()));
         }
     }
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
     for (const auto& it : m_graph.getVertexObjects()) {
         getNetwork().remove(it.get());
     }
@@ -312,6 +321,9 @@ void BusBreakerVoltageLevel::removeAllBuses() {
 }
 
 void BusBreakerVoltageLevel::removeAllSwitches() {
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
     for (const auto& it : m_graph.getEdgeObjects()) {
         getNetwork().remove(it.get());
     }
@@ -342,6 +354,9 @@ void BusBreakerVoltageLevel::removeBus(const std::string& busId) {
     const auto& it = m_buses.find(busId);
     m_graph.removeVertex(it->second);
     m_buses.erase(it);
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
     getNetwork().remove(bus.get());
 }
 
@@ -353,6 +368,9 @@ void BusBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
 
     const auto& aSwitch = m_graph.removeEdge(it->second);
     m_switches.erase(it);
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
     getNetwork().remove(aSwitch.get());
 }
 
diff --git a/src/iidm/NodeBreakerVoltageLevel.cpp b/src/iidm/NodeBreakerVoltageLevel.cpp
index ff052c8..93b5250 100644
--- a/src/iidm/NodeBreakerVoltageLevel.cpp
+++ b/src/iidm/NodeBreakerVoltageLevel.cpp
@@ -34,7 +34,9 @@ void NodeBreakerVoltageLevel::addInternalConnection(unsigned long node1, unsigne
     m_graph.addVertexIfNotPresent(node1);
     m_graph.addVertexIfNotPresent(node2);
     m_graph.addEdge(node1, node2, stdcxx::ref<Switch>());
-    invalidateCache();
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
 }
 
 Switch& NodeBreakerVoltageLevel::addSwitch(std::unique_ptr<Switch>&& ptrSwitch, unsigned long node1, unsigned long node2) {
@@ -43,6 +45,9 @@ Switch& NodeBreakerVoltageLevel::addSwitch(std::unique_ptr<Switch>&& ptrSwitch,
     m_graph.addVertexIfNotPresent(node2);
     unsigned long e = m_graph.addEdge(node1, node2, stdcxx::ref(aSwitch));
     m_switches.insert(std::make_pair(aSwitch.getId(), e));
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
 
     return aSwitch;
 }
@@ -378,7 +383,9 @@ void NodeBreakerVoltageLevel::removeInternalConnections(unsigned long node1, uns
         m_graph.removeEdge(ic);
     }
     clean();
-    invalidateCache();
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
 }
 
 void NodeBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
@@ -389,6 +396,9 @@ void NodeBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
 
     const auto& aSwitch = m_graph.removeEdge(it->second);
     clean();
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
 
     m_switches.erase(it);
     getNetwork().remove(aSwitch.get());
-- 
2.43.0


From 48e43405570cec9aa8ac3facecb0a52c1e5afe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 03/59] fix: vertex numbers of a voltage level's graph may
 exceed the number of vertices

---
 src/iidm/BusBreakerVoltageLevelTopology.cpp | 2 +-
 src/iidm/NodeBreakerVoltageLevel.cpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iidm/BusBreakerVoltageLevelTopology.cpp b/src/iidm/BusBreakerVoltageLevelTopology.cpp
index debc17e..4220310 100644
--- a/src/iidm/BusBreakerVoltageLevelTopology.cpp
+++ b/src/iidm/BusBreakerVoltageLevelTopology.cpp
@@ -110,7 +110,7 @@ void CalculatedBusTopology::updateCache() {
 
     const auto& graph = m_voltageLevel.getGraph();
 
-    std::vector<bool> encountered(graph.getVertexCount(), false);
+    std::vector<bool> encountered(graph.getVertexCapacity(), false);
     for (unsigned long v : graph.getVertices()) {
         if (!encountered[v]) {
 
diff --git a/src/iidm/NodeBreakerVoltageLevel.cpp b/src/iidm/NodeBreakerVoltageLevel.cpp
index 93b5250..2597a83 100644
--- a/src/iidm/NodeBreakerVoltageLevel.cpp
+++ b/src/iidm/NodeBreakerVoltageLevel.cpp
@@ -147,7 +147,7 @@ void NodeBreakerVoltageLevel::detach(Terminal& terminal) {
     auto& nodeTerminal = dynamic_cast<NodeTerminal&>(terminal);
 
     unsigned long node = nodeTerminal.getNode();
-    assert(node < m_graph.getVertexCount());
+    assert(m_graph.vertexExists(node));
     assert(stdcxx::areSame(m_graph.getVertexObject(node).get(), nodeTerminal));
 
     getNetwork().getVariantManager().forEachVariant([this]() {
-- 
2.43.0


From 2b59d43c84bbd296cf5597bbe956dbba9ee89047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 04/59] fix: removing a substation or a voltage level must not
 iterate on what it removes, nor dereference the missing switch of internal
 connections

---
 src/iidm/NodeBreakerVoltageLevel.cpp |  7 +++++--
 src/iidm/Substation.cpp              | 10 ++++++++--
 src/iidm/VoltageLevel.cpp            |  4 ++++
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/iidm/NodeBreakerVoltageLevel.cpp b/src/iidm/NodeBreakerVoltageLevel.cpp
index 2597a83..4e4fb20 100644
--- a/src/iidm/NodeBreakerVoltageLevel.cpp
+++ b/src/iidm/NodeBreakerVoltageLevel.cpp
@@ -405,8 +405,11 @@ void NodeBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
 }
 
 void NodeBreakerVoltageLevel::removeTopology() {
-    for (Switch& s : m_graph.getEdgeObjects()) {
-        getNetwork().getIndex().remove(s);
+    for (const auto& s : m_graph.getEdgeObjects()) {
+        // internal connections have no switch
+        if (s) {
+            getNetwork().getIndex().remove(s.get());
+        }
     }
     m_graph.removeAllEdges();
     m_switches.clear();
diff --git a/src/iidm/Substation.cpp b/src/iidm/Substation.cpp
index f0d550c..2e53037 100644
--- a/src/iidm/Substation.cpp
+++ b/src/iidm/Substation.cpp
@@ -130,9 +130,15 @@ VoltageLevelAdder Substation::newVoltageLevel() {
 void Substation::remove() {
     Substations::checkRemovability(*this);
 
-    for (VoltageLevel& vl : m_voltageLevels) {
+    const auto voltageLevels = m_voltageLevels;
+    for (VoltageLevel& vl : voltageLevels) {
         // Remove all branches, transformers and HVDC lines
-        for (Connectable& connectable : vl.getConnectables()) {
+        std::set<std::string> connectableIds;
+        for (const Connectable& connectable : vl.getConnectables()) {
+            connectableIds.insert(connectable.getId());
+        }
+        for (const std::string& id : connectableIds) {
+            Connectable& connectable = getNetwork().get<Connectable>(id);
             ConnectableType type = connectable.getType();
             if (VoltageLevels::MULTIPLE_TERMINALS_CONNECTABLE_TYPES.find(type) != VoltageLevels::MULTIPLE_TERMINALS_CONNECTABLE_TYPES.end()) {
                 connectable.remove();
diff --git a/src/iidm/VoltageLevel.cpp b/src/iidm/VoltageLevel.cpp
index 312a6ba..54627e5 100644
--- a/src/iidm/VoltageLevel.cpp
+++ b/src/iidm/VoltageLevel.cpp
@@ -238,7 +238,11 @@ void VoltageLevel::remove() {
     VoltageLevels::checkRemovability(*this);
 
     // Remove all connectables
+    std::vector<std::reference_wrapper<Connectable>> connectables;
     for (Connectable& connectable : getConnectables()) {
+        connectables.emplace_back(connectable);
+    }
+    for (Connectable& connectable : connectables) {
         connectable.remove();
     }
 
-- 
2.43.0


From d46456a58bb2d4c5e9345fd3015a652f8a2eb3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:12 +0000
Subject: [PATCH 05/59] fix: the connectable bus of a terminal depends on the
 variant

---
 src/iidm/BusBreakerVoltageLevel.cpp | 24 ++++++++++++++++--------
 src/iidm/BusBreakerVoltageLevel.hpp |  2 ++
 src/iidm/BusTerminalViews.cpp       |  8 +++++---
 3 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/iidm/BusBreakerVoltageLevel.cpp b/src/iidm/BusBreakerVoltageLevel.cpp
index fe0af77..323126c 100644
--- a/src/iidm/BusBreakerVoltageLevel.cpp
+++ b/src/iidm/BusBreakerVoltageLevel.cpp
@@ -67,10 +67,9 @@ void BusBreakerVoltageLevel::attach(Terminal& terminal, bool test) {
     checkTerminal(terminal);
     if (!test) {
         auto& busTerminal = dynamic_cast<BusTerminal&>(terminal);
-        const auto& connectableBus = getConfiguredBus(busTerminal.getConnectableBusId(), true);
 
-        getNetwork().getVariantManager().forEachVariant([&connectableBus, &busTerminal, this]() {
-            connectableBus.get().addTerminal(busTerminal);
+        getNetwork().getVariantManager().forEachVariant([&busTerminal, this]() {
+            getConfiguredBus(busTerminal.getConnectableBusId(), true).get().addTerminal(busTerminal);
 
             invalidateCache();
         });
@@ -115,10 +114,10 @@ void BusBreakerVoltageLevel::detach(Terminal& terminal) {
     assert(stdcxx::isInstanceOf<BusTerminal>(terminal));
 
     auto& busTerminal = dynamic_cast<BusTerminal&>(terminal);
-    auto& bus = getConfiguredBus(busTerminal.getConnectableBusId(), true).get();
 
-    getNetwork().getVariantManager().forEachVariant([&bus, &busTerminal, this]() {
-        bus.removeTerminal(busTerminal);
+    // the connectable bus depends on the variant
+    getNetwork().getVariantManager().forEachVariant([&busTerminal, this]() {
+        getConfiguredBus(busTerminal.getConnectableBusId(), true).get().removeTerminal(busTerminal);
         busTerminal.setConnectableBusId("");
 
         invalidateCache();
@@ -294,6 +293,15 @@ void BusBreakerVoltageLevel::invalidateCache() {
     getNetwork().getSynchronousComponentsManager().invalidate();
 }
 
+bool BusBreakerVoltageLevel::isUsed(const ConfiguredBus& bus) {
+    // the connectable bus of a terminal depends on the variant
+    bool used = false;
+    getNetwork().getVariantManager().forEachVariant([&bus, &used]() {
+        used = used || bus.getTerminalCount() > 0;
+    });
+    return used;
+}
+
 void BusBreakerVoltageLevel::reduceVariantArraySize(unsigned long number) {
     VoltageLevel::reduceVariantArraySize(number);
     m_variants.reduceVariantArraySize(number);
@@ -305,7 +313,7 @@ void BusBreakerVoltageLevel::removeAllBuses() {
     }
     for (const auto& it : m_graph.getVertexObjects()) {
         const auto& bus = it.get();
-        if (bus.getTerminalCount() > 0) {
+        if (isUsed(bus)) {
             throw ValidationException(*this, stdcxx::format("Cannot remove bus '%1%' due to connected equipments", bus.getId()));
         }
     }
@@ -334,7 +342,7 @@ void BusBreakerVoltageLevel::removeAllSwitches() {
 
 void BusBreakerVoltageLevel::removeBus(const std::string& busId) {
     const auto& bus = getConfiguredBus(busId, true);
-    if (bus.get().getTerminalCount() > 0) {
+    if (isUsed(bus.get())) {
         throw ValidationException(*this, stdcxx::format("Cannot remove bus '%1%' due to connectable equipments", busId));
     }
 
diff --git a/src/iidm/BusBreakerVoltageLevel.hpp b/src/iidm/BusBreakerVoltageLevel.hpp
index 8049eba..874bb40 100644
--- a/src/iidm/BusBreakerVoltageLevel.hpp
+++ b/src/iidm/BusBreakerVoltageLevel.hpp
@@ -114,6 +114,8 @@ private:
 
     stdcxx::optional<unsigned long> getVertex(const std::string& busId, bool throwException) const;
 
+    bool isUsed(const ConfiguredBus& bus);
+
     void removeAllBuses();
 
     void removeAllSwitches();
diff --git a/src/iidm/BusTerminalViews.cpp b/src/iidm/BusTerminalViews.cpp
index d769720..f0e54e7 100644
--- a/src/iidm/BusTerminalViews.cpp
+++ b/src/iidm/BusTerminalViews.cpp
@@ -48,11 +48,13 @@ void BusBreakerViewImpl::setConnectableBus(const std::string& busId) {
     auto& voltageLevel = dynamic_cast<BusBreakerVoltageLevel&>(m_terminal.getVoltageLevel());
 
     // Assert that the new bus exists
-    voltageLevel.getConfiguredBus(busId, true);
+    const auto& newBus = voltageLevel.getConfiguredBus(busId, true);
 
-    voltageLevel.detach(m_terminal);
+    // the connectable bus is only modified in the working variant
+    voltageLevel.getConfiguredBus(m_terminal.getConnectableBusId(), true).get().removeTerminal(m_terminal);
     m_terminal.setConnectableBusId(busId);
-    voltageLevel.attach(m_terminal, false);
+    newBus.get().addTerminal(m_terminal);
+    voltageLevel.invalidateCache();
 }
 
 BusViewImpl::BusViewImpl(powsybl::iidm::BusTerminal& terminal):
-- 
2.43.0


From c59ab76cdb25c3d523aaf120c9f171de9f8b7023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:29 +0000
Subject: [PATCH 06/59] fix: a refused variant clone must not create or
 overwrite any variant

---
 src/iidm/VariantManager.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/iidm/VariantManager.cpp b/src/iidm/VariantManager.cpp
index c38ad1d..46b9160 100644
--- a/src/iidm/VariantManager.cpp
+++ b/src/iidm/VariantManager.cpp
@@ -91,17 +91,23 @@ void VariantManager::cloneVariant(const std::string& sourceVariantId, const std:
     std::lock_guard<std::mutex> lock(m_variantMutex);
 
     unsigned long sourceIndex = getVariantIndex(sourceVariantId);
+
+    // check all the targets before any modification
+    std::set<std::string> targets;
+    for (const auto& targetVariantId : targetVariantIds) {
+        bool exists = m_variantsById.find(targetVariantId) != m_variantsById.end();
+        if ((!targets.insert(targetVariantId).second || exists) && !mayOverwrite) {
+            throw PowsyblException(stdcxx::format("Target variant '%1%' already exists", targetVariantId));
+        }
+    }
+
     unsigned long initVariantArraySize = m_variantArraySize;
     unsigned long extendedCount = 0;
     std::set<unsigned long> recycled;
     std::set<unsigned long> overwritten;
-    for (const auto& targetVariantId : targetVariantIds) {
+    for (const auto& targetVariantId : targets) {
         if (m_variantsById.find(targetVariantId) != m_variantsById.end()) {
-            if (mayOverwrite) {
-                overwritten.emplace(m_variantsById[targetVariantId]);
-            } else {
-                throw PowsyblException(stdcxx::format("Target variant '%1%' already exists", targetVariantId));
-            }
+            overwritten.emplace(m_variantsById[targetVariantId]);
         }
         else if (m_unusedIndexes.empty()) {
             // extend variant array size
-- 
2.43.0


From 25ae1de8e67e141a6d261557de2f7fe2596e6b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:01 +0000
Subject: [PATCH 07/59] fix: the working variant of a thread belongs to one
 network only

---
 .../ThreadLocalMultipleVariantContext.cpp     | 32 ++++++++++++++-----
 .../ThreadLocalMultipleVariantContext.hpp     | 19 +++++++----
 2 files changed, 36 insertions(+), 15 deletions(-)

diff --git a/src/iidm/ThreadLocalMultipleVariantContext.cpp b/src/iidm/ThreadLocalMultipleVariantContext.cpp
index 3eb7ab0..018d0e4 100644
--- a/src/iidm/ThreadLocalMultipleVariantContext.cpp
+++ b/src/iidm/ThreadLocalMultipleVariantContext.cpp
@@ -7,6 +7,7 @@
 
 #include "ThreadLocalMultipleVariantContext.hpp"
 
+#include <atomic>
 #include <thread>
 
 #include <powsybl/PowsyblException.hpp>
@@ -16,31 +17,46 @@ namespace powsybl {
 
 namespace iidm {
 
-thread_local stdcxx::optional<unsigned long> ThreadLocalMultipleVariantContext::m_index;
+thread_local std::map<unsigned long, unsigned long> ThreadLocalMultipleVariantContext::m_indexes;
+
+namespace {
+
+unsigned long nextId() {
+    static std::atomic<unsigned long> s_nextId(0UL);
+    return s_nextId++;
+}
+
+}  // namespace
+
+ThreadLocalMultipleVariantContext::ThreadLocalMultipleVariantContext() :
+    m_id(nextId()) {
+}
 
 unsigned long ThreadLocalMultipleVariantContext::getVariantIndex() const {
-    if (m_index) {
-        return *m_index;
+    const auto& it = m_indexes.find(m_id);
+    if (it != m_indexes.end()) {
+        return it->second;
     }
     throw PowsyblException(stdcxx::format("Variant index not set for current thread %1%", std::this_thread::get_id()));
 }
 
 bool ThreadLocalMultipleVariantContext::isIndexSet() const {
-    return static_cast<bool>(m_index);
+    return m_indexes.find(m_id) != m_indexes.end();
 }
 
 void ThreadLocalMultipleVariantContext::reset() {
-    m_index.reset();
+    m_indexes.erase(m_id);
 }
 
 void ThreadLocalMultipleVariantContext::resetIfVariantIndexIs(unsigned long index) {
-    if (m_index && m_index == index) {
-        m_index.reset();
+    const auto& it = m_indexes.find(m_id);
+    if (it != m_indexes.end() && it->second == index) {
+        m_indexes.erase(it);
     }
 }
 
 void ThreadLocalMultipleVariantContext::setVariantIndex(unsigned long index) {
-    m_index = index;
+    m_indexes[m_id] = index;
 }
 
 }  // namespace iidm
diff --git a/src/iidm/ThreadLocalMultipleVariantContext.hpp b/src/iidm/ThreadLocalMultipleVariantContext.hpp
index 0c8d9a1..0dbb8b8 100644
--- a/src/iidm/ThreadLocalMultipleVariantContext.hpp
+++ b/src/iidm/ThreadLocalMultipleVariantContext.hpp
@@ -8,8 +8,9 @@
 #ifndef POWSYBL_IIDM_THREADLOCALMULTIPLEVARIANTCONTEXT_HPP
 #define POWSYBL_IIDM_THREADLOCALMULTIPLEVARIANTCONTEXT_HPP
 
+#include <map>
+
 #include <powsybl/iidm/VariantContext.hpp>
-#include <powsybl/stdcxx/optional.hpp>
 
 namespace powsybl {
 
@@ -26,22 +27,26 @@ public:  // VariantContext
     void setVariantIndex(unsigned long index) override;
 
 public:
-    ThreadLocalMultipleVariantContext() = default;
+    ThreadLocalMultipleVariantContext();
 
-    ThreadLocalMultipleVariantContext(const ThreadLocalMultipleVariantContext&) = default;
+    ThreadLocalMultipleVariantContext(const ThreadLocalMultipleVariantContext&) = delete;
 
-    ThreadLocalMultipleVariantContext(ThreadLocalMultipleVariantContext&&) noexcept = default;
+    ThreadLocalMultipleVariantContext(ThreadLocalMultipleVariantContext&&) noexcept = delete;
 
     ~ThreadLocalMultipleVariantContext() noexcept override = default;
 
-    ThreadLocalMultipleVariantContext& operator=(const ThreadLocalMultipleVariantContext&) = default;
+    ThreadLocalMultipleVariantContext& operator=(const ThreadLocalMultipleVariantContext&) = delete;
 
-    ThreadLocalMultipleVariantContext& operator=(ThreadLocalMultipleVariantContext&&) noexcept = default;
+    ThreadLocalMultipleVariantContext& operator=(ThreadLocalMultipleVariantContext&&) noexcept = delete;
 
     void reset();
 
 private:
-    static thread_local stdcxx::optional<unsigned long> m_index;
+    // variant index of the current thread, by context
+    static thread_local std::map<unsigned long, unsigned long> m_indexes;
+
+    // unique identifier of the context
+    unsigned long m_id;
 };
 
 }  // namespace iidm
-- 
2.43.0


From 12ea620994659d68f14527828b8d5a88f3eff600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:01 +0000
Subject: [PATCH 08/59] fix: operations on all variants must not require a
 working variant

---
 include/powsybl/iidm/VariantContextGuard.hpp |  4 +++-
 src/iidm/VariantContextGuard.cpp             | 13 ++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/powsybl/iidm/VariantContextGuard.hpp b/include/powsybl/iidm/VariantContextGuard.hpp
index e9ba3bf..4e44860 100644
--- a/include/powsybl/iidm/VariantContextGuard.hpp
+++ b/include/powsybl/iidm/VariantContextGuard.hpp
@@ -8,6 +8,8 @@
 #ifndef POWSYBL_IIDM_VARIANTCONTEXTGUARD_HPP
 #define POWSYBL_IIDM_VARIANTCONTEXTGUARD_HPP
 
+#include <powsybl/stdcxx/optional.hpp>
+
 namespace powsybl {
 
 namespace iidm {
@@ -30,7 +32,7 @@ public:
 private:
     VariantContext& m_context;
 
-    unsigned long m_variantIndex;
+    stdcxx::optional<unsigned long> m_variantIndex;
 };
 
 }  // namespace iidm
diff --git a/src/iidm/VariantContextGuard.cpp b/src/iidm/VariantContextGuard.cpp
index 1734b2b..8865c0a 100644
--- a/src/iidm/VariantContextGuard.cpp
+++ b/src/iidm/VariantContextGuard.cpp
@@ -14,12 +14,19 @@ namespace powsybl {
 namespace iidm {
 
 VariantContextGuard::VariantContextGuard(VariantContext& context) :
-    m_context(context),
-    m_variantIndex(context.getVariantIndex()) {
+    m_context(context) {
+    // no working variant may be set
+    if (context.isIndexSet()) {
+        m_variantIndex = context.getVariantIndex();
+    }
 }
 
 VariantContextGuard::~VariantContextGuard() noexcept {
-    m_context.setVariantIndex(m_variantIndex);
+    if (m_variantIndex) {
+        m_context.setVariantIndex(*m_variantIndex);
+    } else if (m_context.isIndexSet()) {
+        m_context.resetIfVariantIndexIs(m_context.getVariantIndex());
+    }
 }
 
 }  // namespace iidm
-- 
2.43.0


From bd75ba21023d3c86acfc8a1e37f52fa5d47b1f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 09/59] fix: moving a network keeps its aliases, its extensions
 and its removed variants

---
 include/powsybl/iidm/Extension.hpp    | 2 ++
 include/powsybl/iidm/VariantArray.hxx | 3 ++-
 src/iidm/Extendable.cpp               | 3 ++-
 src/iidm/NetworkIndex.cpp             | 3 ++-
 4 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/powsybl/iidm/Extension.hpp b/include/powsybl/iidm/Extension.hpp
index e86363a..687f38c 100644
--- a/include/powsybl/iidm/Extension.hpp
+++ b/include/powsybl/iidm/Extension.hpp
@@ -56,6 +56,8 @@ private:
     virtual void assertExtendable(const stdcxx::Reference<Extendable>& extendable) const = 0;
 
 private:
+    friend class Extendable;
+
     stdcxx::Reference<Extendable> m_extendable;
 };
 
diff --git a/include/powsybl/iidm/VariantArray.hxx b/include/powsybl/iidm/VariantArray.hxx
index b4a103a..9e47083 100644
--- a/include/powsybl/iidm/VariantArray.hxx
+++ b/include/powsybl/iidm/VariantArray.hxx
@@ -34,7 +34,8 @@ VariantArray<Owner, V, Dummy>::VariantArray(Owner& owner, VariantArray&& variant
     m_owner(owner) {
 
     for (auto& variant : variantArray.m_variants) {
-        m_variants.emplace_back(stdcxx::make_unique<V>(owner, std::move(*variant)));
+        // the elements of the removed variants are empty
+        m_variants.emplace_back(variant ? stdcxx::make_unique<V>(owner, std::move(*variant)) : nullptr);
     }
 }
 
diff --git a/src/iidm/Extendable.cpp b/src/iidm/Extendable.cpp
index 2b14f44..fdc0dc0 100644
--- a/src/iidm/Extendable.cpp
+++ b/src/iidm/Extendable.cpp
@@ -22,7 +22,8 @@ Extendable::Extendable(Extendable&& extendable) noexcept :
     m_extensionsByType(std::move(extendable.m_extensionsByType)) {
 
     for (auto& it : m_extensionsByName) {
-        it.second->setExtendable(*this);
+        // the extension follows its extendable
+        it.second->m_extendable = stdcxx::ref(*this);
     }
 }
 
diff --git a/src/iidm/NetworkIndex.cpp b/src/iidm/NetworkIndex.cpp
index 5e41e5d..a0b57da 100644
--- a/src/iidm/NetworkIndex.cpp
+++ b/src/iidm/NetworkIndex.cpp
@@ -39,7 +39,8 @@ void NetworkIndex::Deleter::operator()(Identifiable* ptr) const {
 
 NetworkIndex::NetworkIndex(Network& network, NetworkIndex&& networkIndex) noexcept :
     m_objectsById(std::move(networkIndex.m_objectsById)),
-    m_objectsByType(std::move(networkIndex.m_objectsByType)) {
+    m_objectsByType(std::move(networkIndex.m_objectsByType)),
+    m_idByAlias(std::move(networkIndex.m_idByAlias)) {
 
     // Replace the references to the old network by the new one
     m_objectsById[network.getId()].reset(&network);
-- 
2.43.0


From d147e7f6e0afdb00083d064fca7cb324969228d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:01 +0000
Subject: [PATCH 10/59] fix: replacing an extension removes the previous one
 from both maps, and only once the new one is accepted

---
 src/iidm/Extendable.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/iidm/Extendable.cpp b/src/iidm/Extendable.cpp
index fdc0dc0..aaee432 100644
--- a/src/iidm/Extendable.cpp
+++ b/src/iidm/Extendable.cpp
@@ -28,15 +28,17 @@ Extendable::Extendable(Extendable&& extendable) noexcept :
 }
 
 void Extendable::addExtension(std::unique_ptr<Extension>&& extension) {
+    // refuse the extension before removing the existing one
+    extension->setExtendable(*this);
+
     auto it = m_extensionsByName.find(extension->getName());
     if (it != m_extensionsByName.end()) {
         // Clean the existing extension
         it->second->setExtendable(stdcxx::ref<Extendable>());
-        m_extensionsByName.erase(extension->getName());
-        m_extensionsByType.erase(extension->getType());
+        m_extensionsByType.erase(it->second->getType());
+        m_extensionsByName.erase(it);
     }
 
-    extension->setExtendable(*this);
     auto newIt = m_extensionsByName.emplace(std::make_pair(extension->getName(), std::move(extension)));
 
     std::reference_wrapper<Extension> refExtension = *newIt.first->second;
-- 
2.43.0


From e71fc7254046c8bdebb7f441213d5ab84a44b4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:49 +0000
Subject: [PATCH 11/59] fix: changing the low tap position keeps the tap
 position of all variants in range

---
 include/powsybl/iidm/TapChanger.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/powsybl/iidm/TapChanger.hxx b/include/powsybl/iidm/TapChanger.hxx
index 56afb8e..7282613 100644
--- a/include/powsybl/iidm/TapChanger.hxx
+++ b/include/powsybl/iidm/TapChanger.hxx
@@ -167,7 +167,9 @@ template<typename H, typename C, typename S>
 C& TapChanger<H, C, S>::setLowTapPosition(long lowTapPosition) {
     long oldValue = m_lowTapPosition;
     m_lowTapPosition = lowTapPosition;
-    m_tapPosition[getNetwork().getVariantIndex()] = getTapPosition() + m_lowTapPosition - oldValue;
+    for (long& tapPosition : m_tapPosition) {
+        tapPosition += m_lowTapPosition - oldValue;
+    }
 
     return static_cast<C&>(*this);
 }
-- 
2.43.0


From 81d9a730a1891d4035ea8b775454b935d2eedb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:49 +0000
Subject: [PATCH 12/59] fix: load tap changing capabilities are validated with
 the new value

---
 src/iidm/RatioTapChanger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/RatioTapChanger.cpp b/src/iidm/RatioTapChanger.cpp
index 854d427..f3134ed 100644
--- a/src/iidm/RatioTapChanger.cpp
+++ b/src/iidm/RatioTapChanger.cpp
@@ -56,7 +56,7 @@ void RatioTapChanger::remove() {
 }
 
 RatioTapChanger& RatioTapChanger::setLoadTapChangingCapabilities(bool loadTapChangingCapabilities) {
-    checkRatioTapChangerRegulation(getParent(), isRegulating(), m_loadTapChangingCapabilities, getRegulationTerminal(), getTargetV(), getNetwork());
+    checkRatioTapChangerRegulation(getParent(), isRegulating(), loadTapChangingCapabilities, getRegulationTerminal(), getTargetV(), getNetwork());
     m_loadTapChangingCapabilities = loadTapChangingCapabilities;
     return *this;
 }
-- 
2.43.0


From 2bc81708bbf8ef14395699a3e1e95484d09768db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:49 +0000
Subject: [PATCH 13/59] fix: a ratio tap changer without load tap changing
 capabilities may have no regulation terminal

---
 src/iidm/ValidationUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/ValidationUtils.cpp b/src/iidm/ValidationUtils.cpp
index e727de3..105d817 100644
--- a/src/iidm/ValidationUtils.cpp
+++ b/src/iidm/ValidationUtils.cpp
@@ -331,7 +331,7 @@ void checkRatioTapChangerRegulation(const Validable& validable, bool regulating,
         if (!regulationTerminal) {
             throwExceptionOrWarningForRtc(validable, loadTapChangingCapabilities, "a regulation terminal has to be set for a regulating ratio tap changer");
         }
-        if (!stdcxx::areSame(regulationTerminal.get().getVoltageLevel().getNetwork(), network)) {
+        if (regulationTerminal && !stdcxx::areSame(regulationTerminal.get().getVoltageLevel().getNetwork(), network)) {
             throwExceptionOrWarningForRtc(validable, loadTapChangingCapabilities, "regulation terminal is not part of the network");
         }
     }
-- 
2.43.0


From 38551bbd04f2a84a7cbe46c45e9d3996006a1b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:49 +0000
Subject: [PATCH 14/59] fix: enabling the regulation of a tap changer makes the
 same checks as its creation

---
 include/powsybl/iidm/PhaseTapChanger.hpp  | 2 ++
 include/powsybl/iidm/TapChangerHolder.hpp | 4 ++++
 src/iidm/PhaseTapChanger.cpp              | 7 +++++++
 src/iidm/RatioTapChanger.cpp              | 2 ++
 4 files changed, 15 insertions(+)

diff --git a/include/powsybl/iidm/PhaseTapChanger.hpp b/include/powsybl/iidm/PhaseTapChanger.hpp
index 1b32814..3878a3f 100644
--- a/include/powsybl/iidm/PhaseTapChanger.hpp
+++ b/include/powsybl/iidm/PhaseTapChanger.hpp
@@ -35,6 +35,8 @@ public: // MultiVariantObject
 public: // TapChanger
     void remove() override;
 
+    PhaseTapChanger& setRegulating(bool regulating) override;
+
     PhaseTapChanger& setRegulationTerminal(const stdcxx::Reference<Terminal>& regulationTerminal) override;
 
 public:
diff --git a/include/powsybl/iidm/TapChangerHolder.hpp b/include/powsybl/iidm/TapChangerHolder.hpp
index bb1d534..f890fbf 100644
--- a/include/powsybl/iidm/TapChangerHolder.hpp
+++ b/include/powsybl/iidm/TapChangerHolder.hpp
@@ -36,8 +36,12 @@ private:
     virtual unsigned long getRegulatingTapChangerCount() const = 0;
 
 private:
+    friend class PhaseTapChanger;
+
     friend class PhaseTapChangerAdder;
 
+    friend class RatioTapChanger;
+
     friend class RatioTapChangerAdder;
 };
 
diff --git a/src/iidm/PhaseTapChanger.cpp b/src/iidm/PhaseTapChanger.cpp
index d607d70..40488b5 100644
--- a/src/iidm/PhaseTapChanger.cpp
+++ b/src/iidm/PhaseTapChanger.cpp
@@ -57,6 +57,13 @@ void PhaseTapChanger::remove() {
     return getParent().setPhaseTapChanger(std::unique_ptr<PhaseTapChanger>());
 }
 
+PhaseTapChanger& PhaseTapChanger::setRegulating(bool regulating) {
+    checkPhaseTapChangerRegulation(getParent(), m_regulationMode, getRegulationValue(), regulating, getRegulationTerminal(), getNetwork());
+    const TapChangerHolder& holder = getParent();
+    checkOnlyOneTapChangerRegulatingEnabled(getParent(), holder.getRegulatingTapChangerCount() - (isRegulating() ? 1 : 0), regulating);
+    return TapChanger::setRegulating(regulating);
+}
+
 PhaseTapChanger& PhaseTapChanger::setRegulationMode(const RegulationMode& regulationMode) {
     checkPhaseTapChangerRegulation(getParent(), regulationMode, getRegulationValue(), isRegulating(), getRegulationTerminal(), getNetwork());
     m_regulationMode = regulationMode;
diff --git a/src/iidm/RatioTapChanger.cpp b/src/iidm/RatioTapChanger.cpp
index f3134ed..dcd635b 100644
--- a/src/iidm/RatioTapChanger.cpp
+++ b/src/iidm/RatioTapChanger.cpp
@@ -63,6 +63,8 @@ RatioTapChanger& RatioTapChanger::setLoadTapChangingCapabilities(bool loadTapCha
 
 RatioTapChanger& RatioTapChanger::setRegulating(bool regulating) {
     checkRatioTapChangerRegulation(getParent(), regulating, m_loadTapChangingCapabilities, getRegulationTerminal(), getTargetV(), getNetwork());
+    const TapChangerHolder& holder = getParent();
+    checkOnlyOneTapChangerRegulatingEnabled(getParent(), holder.getRegulatingTapChangerCount() - (isRegulating() ? 1 : 0), regulating);
     return TapChanger::setRegulating(regulating);
 }
 
-- 
2.43.0


From 35988226e813480ac07316ab09a6eb3321fa6045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 15/59] fix: a converter station belongs to one side of one
 HVDC line at most

---
 src/iidm/HvdcLineAdder.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/iidm/HvdcLineAdder.cpp b/src/iidm/HvdcLineAdder.cpp
index c24ca9c..f33562f 100644
--- a/src/iidm/HvdcLineAdder.cpp
+++ b/src/iidm/HvdcLineAdder.cpp
@@ -11,8 +11,10 @@
 #include <powsybl/iidm/HvdcLine.hpp>
 #include <powsybl/iidm/Network.hpp>
 #include <powsybl/iidm/ValidationUtils.hpp>
+#include <powsybl/stdcxx/format.hpp>
 #include <powsybl/stdcxx/make_unique.hpp>
 #include <powsybl/stdcxx/math.hpp>
+#include <powsybl/stdcxx/memory.hpp>
 
 namespace powsybl {
 
@@ -32,6 +34,15 @@ HvdcLine& HvdcLineAdder::add() {
 
     HvdcConverterStation& converterStation1 = getConverterStation(m_converterStationId1, 1U);
     HvdcConverterStation& converterStation2 = getConverterStation(m_converterStationId2, 2U);
+    if (stdcxx::areSame(converterStation1, converterStation2)) {
+        throw ValidationException(*this, stdcxx::format("the converter station '%1%' cannot be on both sides", m_converterStationId1));
+    }
+    for (const HvdcConverterStation& converterStation : {std::cref(converterStation1), std::cref(converterStation2)}) {
+        const auto& line = converterStation.getHvdcLine();
+        if (line) {
+            throw ValidationException(*this, stdcxx::format("the converter station '%1%' is already attached to '%2%'", converterStation.getId(), line.get().getId()));
+        }
+    }
 
     std::unique_ptr<HvdcLine> ptrHvdcLine = stdcxx::make_unique<HvdcLine>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_r, m_nominalV, m_maxP, *m_convertersMode, m_activePowerSetpoint,
                                                                           converterStation1, converterStation2);
-- 
2.43.0


From d8d4d4adabd2c97fe6717e760914e4163ab07dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:47 +0000
Subject: [PATCH 16/59] fix: all vertices of a graph can be removed once all
 its edges are removed

---
 include/powsybl/math/UndirectedGraph.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/powsybl/math/UndirectedGraph.hxx b/include/powsybl/math/UndirectedGraph.hxx
index 90746fd..84112c3 100644
--- a/include/powsybl/math/UndirectedGraph.hxx
+++ b/include/powsybl/math/UndirectedGraph.hxx
@@ -342,7 +342,7 @@ void UndirectedGraph<V, E>::removeAllEdges() {
 
 template <typename V, typename E>
 void UndirectedGraph<V, E>::removeAllVertices() {
-    if (!m_edges.empty()) {
+    if (getEdgeCount() > 0) {
         throw PowsyblException("Cannot remove all vertices because there is still some edges in the graph");
     }
 
-- 
2.43.0


From 1aed61fdad114e9c8bb2b8a28703ca33cc8ade68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:59 +0000
Subject: [PATCH 17/59] fix: the edge objects between two vertices can be
 requested

---
 include/powsybl/math/UndirectedGraph.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/powsybl/math/UndirectedGraph.hxx b/include/powsybl/math/UndirectedGraph.hxx
index 84112c3..953e4bc 100644
--- a/include/powsybl/math/UndirectedGraph.hxx
+++ b/include/powsybl/math/UndirectedGraph.hxx
@@ -242,11 +242,11 @@ typename UndirectedGraph<V, E>::template const_range<E> UndirectedGraph<V, E>::g
     const std::vector<std::vector<unsigned long> >& adjacencyList = getAdjacencyList();
     const std::vector<unsigned long>& adjacentEdges = adjacencyList[v1];
 
-    const auto& edgeMapper = [this](const unsigned long& e) {
-        return m_edges[e].get();
+    const auto& edgeMapper = [this](const unsigned long& e) -> const Edge& {
+        return *m_edges[e];
     };
     const auto& edgeFilter = [v1, v2](const Edge& edge) {
-        return ((edge->getVertex1() == v1 && edge->getVertex2() == v2) || (edge->getVertex1() == v2 && edge->getVertex2() == v1));
+        return (edge.getVertex1() == v1 && edge.getVertex2() == v2) || (edge.getVertex1() == v2 && edge.getVertex2() == v1);
     };
 
     return adjacentEdges |
-- 
2.43.0


From 0be035379d146ea0c2c644943b6a3935fde583d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:58 +0000
Subject: [PATCH 18/59] fix: subnormal numbers can be read from XML

---
 src/xml/XmlStreamReader.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/xml/XmlStreamReader.cpp b/src/xml/XmlStreamReader.cpp
index 914a81f..e8a3798 100644
--- a/src/xml/XmlStreamReader.cpp
+++ b/src/xml/XmlStreamReader.cpp
@@ -7,6 +7,9 @@
 
 #include <powsybl/xml/XmlStreamReader.hpp>
 
+#include <cmath>
+#include <cstdlib>
+
 #include <boost/algorithm/string/predicate.hpp>
 #include <libxml/xmlreader.h>
 
@@ -22,6 +25,16 @@ namespace powsybl {
 
 namespace xml {
 
+// std::stod refuses the subnormal numbers
+double toDouble(const std::string& str) {
+    char* end = nullptr;
+    double value = std::strtod(str.c_str(), &end);
+    if (end == str.c_str() || std::isinf(value)) {
+        return std::stod(str);
+    }
+    return value;
+}
+
 void checkNodeType(xmlTextReader& reader, const xmlReaderTypes& expected) {
     int nodeType = xmlTextReaderNodeType(&reader);
     if (nodeType != expected) {
@@ -71,7 +84,7 @@ bool XmlStreamReader::getAttributeValue(const std::string& attributeName) const
 template <>
 double XmlStreamReader::getAttributeValue(const std::string& attributeName) const {
     XmlString value = getAttributeValue(attributeName, true);
-    return std::stod(XML2S(value.get()));
+    return toDouble(XML2S(value.get()));
 }
 
 template <>
@@ -177,7 +190,7 @@ stdcxx::optional<double> XmlStreamReader::getOptionalAttributeValue(const std::s
 
     const XmlString& str = getAttributeValue(attributeName, false);
     if (str) {
-        value = std::stod(XML2S(str.get()));
+        value = toDouble(XML2S(str.get()));
     }
 
     return value;
-- 
2.43.0


From 6cf497229be9529bc23dc9cd05995771a1d14c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:58 +0000
Subject: [PATCH 19/59] fix: a missing boolean or unsigned attribute is
 reported instead of building a string from a null pointer

---
 src/xml/XmlStreamReader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xml/XmlStreamReader.cpp b/src/xml/XmlStreamReader.cpp
index e8a3798..677f2f5 100644
--- a/src/xml/XmlStreamReader.cpp
+++ b/src/xml/XmlStreamReader.cpp
@@ -76,7 +76,7 @@ XmlStreamReader::XmlStreamReader(std::istream& stream, const std::string& encodi
 
 template <>
 bool XmlStreamReader::getAttributeValue(const std::string& attributeName) const {
-    XmlString value = getAttributeValue(attributeName, false);
+    XmlString value = getAttributeValue(attributeName, true);
     const std::string& booleanStr = XML2S(value.get());
     return boost::iequals(booleanStr, "true");
 }
@@ -101,7 +101,7 @@ long XmlStreamReader::getAttributeValue(const std::string& attributeName) const
 
 template <>
 unsigned long XmlStreamReader::getAttributeValue(const std::string& attributeName) const {
-    XmlString value = getAttributeValue(attributeName, false);
+    XmlString value = getAttributeValue(attributeName, true);
     return std::stoul(XML2S(value.get()));
 }
 
-- 
2.43.0


From 510eec6367d8a8327ade3e068b66743161feecdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:58 +0000
Subject: [PATCH 20/59] fix: a text made of whitespace only is read back

---
 src/xml/XmlStreamReader.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/xml/XmlStreamReader.cpp b/src/xml/XmlStreamReader.cpp
index 677f2f5..4d8fc78 100644
--- a/src/xml/XmlStreamReader.cpp
+++ b/src/xml/XmlStreamReader.cpp
@@ -262,7 +262,9 @@ std::string XmlStreamReader::getPrefix() const {
 }
 
 std::string XmlStreamReader::getText() const {
-    checkNodeType(*m_reader, XML_READER_TYPE_TEXT);
+    if (getCurrentNodeType() != XML_READER_TYPE_SIGNIFICANT_WHITESPACE) {
+        checkNodeType(*m_reader, XML_READER_TYPE_TEXT);
+    }
 
     std::string text;
     XmlString content(xmlTextReaderReadString(m_reader.get()));
-- 
2.43.0


From 0a5e5a1123871eced96cc1947458070f142d9805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:51 +0000
Subject: [PATCH 21/59] fix: the sections of a non linear shunt compensator can
 be modified

---
 include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp | 2 ++
 src/iidm/ShuntCompensatorNonLinearModel.cpp             | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp b/include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp
index f22f846..796f593 100644
--- a/include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp
+++ b/include/powsybl/iidm/ShuntCompensatorNonLinearModel.hpp
@@ -35,6 +35,8 @@ public:
     private:
         Section& attach(ShuntCompensator& shuntCompensator);
 
+        friend class ShuntCompensatorNonLinearModel;
+
     private:
         stdcxx::Reference<ShuntCompensator> m_shuntCompensator;
 
diff --git a/src/iidm/ShuntCompensatorNonLinearModel.cpp b/src/iidm/ShuntCompensatorNonLinearModel.cpp
index 8120cbd..89e12f8 100644
--- a/src/iidm/ShuntCompensatorNonLinearModel.cpp
+++ b/src/iidm/ShuntCompensatorNonLinearModel.cpp
@@ -59,6 +59,9 @@ ShuntCompensatorNonLinearModel& ShuntCompensatorNonLinearModel::attach(ShuntComp
         throw AssertionError(stdcxx::format("ShuntCompensatorNonLinearModel already attached to %1%", m_shuntCompensator.get().getId()));
     }
     m_shuntCompensator = shuntCompensator;
+    for (Section& section : m_sections) {
+        section.attach(shuntCompensator);
+    }
     return *this;
 }
 
-- 
2.43.0


From 809e7747db663cc633a00591e35a870155aca449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:15 +0000
Subject: [PATCH 22/59] fix: removing variants keeps the slack terminals of the
 remaining ones

---
 src/iidm/extensions/SlackTerminal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/extensions/SlackTerminal.cpp b/src/iidm/extensions/SlackTerminal.cpp
index b0f1ca3..a8cc5a5 100644
--- a/src/iidm/extensions/SlackTerminal.cpp
+++ b/src/iidm/extensions/SlackTerminal.cpp
@@ -82,7 +82,7 @@ bool SlackTerminal::isEmpty() const {
 }
 
 void SlackTerminal::reduceVariantArraySize(unsigned long number) {
-    m_terminals.resize(number); // remove elements from the top to avoid moves inside the array
+    m_terminals.resize(m_terminals.size() - number); // remove elements from the top to avoid moves inside the array
 }
 
 void SlackTerminal::reset(Network& network) {
-- 
2.43.0


From 0b0e95205212c8a4835dc751e734a9041bb6b730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:59 +0000
Subject: [PATCH 23/59] fix: a valid measurement keeps a defined value

---
 extensions/iidm/src/Measurement.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extensions/iidm/src/Measurement.cpp b/extensions/iidm/src/Measurement.cpp
index b03f2b6..dbc6fdf 100644
--- a/extensions/iidm/src/Measurement.cpp
+++ b/extensions/iidm/src/Measurement.cpp
@@ -10,6 +10,7 @@
 #include <boost/range/adaptor/map.hpp>
 
 #include <powsybl/iidm/Enum.hpp>
+#include <powsybl/iidm/extensions/iidm/MeasurementValidationUtil.hpp>
 #include <powsybl/iidm/extensions/iidm/Measurements.hpp>
 
 namespace powsybl {
@@ -127,11 +128,13 @@ Measurement& Measurement::setStandardDeviation(double standardDeviation) {
 }
 
 Measurement& Measurement::setValid(bool valid) {
+    MeasurementValidationUtil::checkValue(m_value, valid);
     m_valid = valid;
     return *this;
 }
 
 Measurement& Measurement::setValue(double value) {
+    MeasurementValidationUtil::checkValue(value, m_valid);
     m_value = value;
     return *this;
 }
-- 
2.43.0


From 92d409c8d680209400c7f6ffb662992ece76fff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:59 +0000
Subject: [PATCH 24/59] fix: creating a measurement returns the one created,
 also without identifier

---
 extensions/iidm/src/DiscreteMeasurementAdder.cpp | 3 ++-
 extensions/iidm/src/MeasurementAdder.cpp         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/extensions/iidm/src/DiscreteMeasurementAdder.cpp b/extensions/iidm/src/DiscreteMeasurementAdder.cpp
index aeb5606..383aaf2 100644
--- a/extensions/iidm/src/DiscreteMeasurementAdder.cpp
+++ b/extensions/iidm/src/DiscreteMeasurementAdder.cpp
@@ -32,9 +32,10 @@ DiscreteMeasurement& DiscreteMeasurementAdder::add() {
 
     auto discreteMeasurement = std::unique_ptr<DiscreteMeasurement>(
         new DiscreteMeasurement(m_discreteMeasurements, m_id, m_type, m_tapChanger, m_properties, DiscreteMeasurementValidationUtil::getValueType(m_value), m_value, m_valid));
+    DiscreteMeasurement& result = *discreteMeasurement;
     m_discreteMeasurements.add(std::move(discreteMeasurement));
 
-    return m_discreteMeasurements.getDiscreteMeasurement(m_id);
+    return result;
 }
 
 DiscreteMeasurementAdder& DiscreteMeasurementAdder::putProperty(const std::string& name, const std::string& value) {
diff --git a/extensions/iidm/src/MeasurementAdder.cpp b/extensions/iidm/src/MeasurementAdder.cpp
index 8caabb7..bb02786 100644
--- a/extensions/iidm/src/MeasurementAdder.cpp
+++ b/extensions/iidm/src/MeasurementAdder.cpp
@@ -31,8 +31,9 @@ Measurement& MeasurementAdder::add() {
     MeasurementValidationUtil::checkValue(m_value, m_valid);
     MeasurementValidationUtil::checkSide(*m_type, m_side, m_measurements.getExtendable<Connectable>().get());
     std::unique_ptr<Measurement> measurement = stdcxx::make_unique<Measurement>(m_measurements, m_id, *m_type, m_properties, m_value, m_standardDeviation, m_valid, m_side);
+    Measurement& result = *measurement;
     m_measurements.add(std::move(measurement));
-    return m_measurements.getMeasurement(m_id).get();
+    return result;
 }
 
 MeasurementAdder& MeasurementAdder::putProperty(const std::string& name, const std::string& value) {
-- 
2.43.0


From ad3c8424a7703ac7537560aa2bb6d8b6ab414ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:23 +0000
Subject: [PATCH 25/59] fix: filtering measurements by type does not refer to
 the type given by the caller

---
 extensions/iidm/src/DiscreteMeasurements.cpp | 4 ++--
 extensions/iidm/src/Measurements.cpp         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/extensions/iidm/src/DiscreteMeasurements.cpp b/extensions/iidm/src/DiscreteMeasurements.cpp
index 519ff06..35e7aec 100644
--- a/extensions/iidm/src/DiscreteMeasurements.cpp
+++ b/extensions/iidm/src/DiscreteMeasurements.cpp
@@ -64,7 +64,7 @@ stdcxx::range<DiscreteMeasurement> DiscreteMeasurements::getDiscreteMeasurements
 }
 
 stdcxx::const_range<DiscreteMeasurement> DiscreteMeasurements::getDiscreteMeasurements(const DiscreteMeasurement::Type& type) const {
-    const auto& filter = [&type](const std::unique_ptr<DiscreteMeasurement>& measurement) {
+    const auto& filter = [type](const std::unique_ptr<DiscreteMeasurement>& measurement) {
         return measurement->getType() == type;
     };
 
@@ -72,7 +72,7 @@ stdcxx::const_range<DiscreteMeasurement> DiscreteMeasurements::getDiscreteMeasur
 }
 
 stdcxx::range<DiscreteMeasurement> DiscreteMeasurements::getDiscreteMeasurements(const DiscreteMeasurement::Type& type) {
-    const auto& filter = [&type](const std::unique_ptr<DiscreteMeasurement>& measurement) {
+    const auto& filter = [type](const std::unique_ptr<DiscreteMeasurement>& measurement) {
         return measurement->getType() == type;
     };
 
diff --git a/extensions/iidm/src/Measurements.cpp b/extensions/iidm/src/Measurements.cpp
index 6853d7a..d2c03fb 100644
--- a/extensions/iidm/src/Measurements.cpp
+++ b/extensions/iidm/src/Measurements.cpp
@@ -59,7 +59,7 @@ stdcxx::const_range<Measurement> Measurements::getMeasurements() const {
 }
 
 stdcxx::const_range<Measurement> Measurements::getMeasurements(const Measurement::Type& type) const {
-    const auto& filter = [&type](const std::unique_ptr<Measurement>& measurement) {
+    const auto& filter = [type](const std::unique_ptr<Measurement>& measurement) {
         return measurement->getType() == type;
     };
 
@@ -67,7 +67,7 @@ stdcxx::const_range<Measurement> Measurements::getMeasurements(const Measurement
 }
 
 stdcxx::range<Measurement> Measurements::getMeasurements(const Measurement::Type& type) {
-    const auto& filter = [&type](const std::unique_ptr<Measurement>& measurement) {
+    const auto& filter = [type](const std::unique_ptr<Measurement>& measurement) {
         return measurement->getType() == type;
     };
 
-- 
2.43.0


From 063e1c1032e5106487ade5eb77be9c74e658f4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:57 +0000
Subject: [PATCH 26/59] fix: a bus with aliases or properties is read back

---
 src/iidm/converter/xml/BusXml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/converter/xml/BusXml.cpp b/src/iidm/converter/xml/BusXml.cpp
index d8381f4..6a504f2 100644
--- a/src/iidm/converter/xml/BusXml.cpp
+++ b/src/iidm/converter/xml/BusXml.cpp
@@ -38,7 +38,7 @@ Bus& BusXml::readRootElementAttributes(BusAdder& adder, NetworkXmlReaderContext&
 }
 
 void BusXml::readSubElements(Bus& bus, NetworkXmlReaderContext& context) const {
-    context.getReader().readUntilEndElement(SUBSTATION, [this, &bus, &context]() {
+    context.getReader().readUntilEndElement(BUS, [this, &bus, &context]() {
         AbstractIdentifiableXml::readSubElements(bus, context);
     });
 }
-- 
2.43.0


From ab331d790906431c80c1e60edf26d84dc9a5c4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:10 +0000
Subject: [PATCH 27/59] fix: extensions that cannot be serialized do not
 prevent the export of a network

---
 src/iidm/converter/xml/NetworkXml.cpp | 31 ++++++++++++++++++---------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/iidm/converter/xml/NetworkXml.cpp b/src/iidm/converter/xml/NetworkXml.cpp
index 1fbf7cb..483d9ad 100644
--- a/src/iidm/converter/xml/NetworkXml.cpp
+++ b/src/iidm/converter/xml/NetworkXml.cpp
@@ -8,6 +8,7 @@
 #include "NetworkXml.hpp"
 
 #include <chrono>
+#include <vector>
 
 #include <boost/filesystem/fstream.hpp>
 
@@ -59,10 +60,14 @@ void checkExtensionsNotFound(const NetworkXmlReaderContext& context, const std::
 }
 
 std::set<std::string> getExtensionNames(const Network& network) {
+    const auto& extensionProviders = powsybl::iidm::ExtensionProviders<ExtensionXmlSerializer>::getInstance();
     std::set<std::string> names;
     for (const auto& identifiable : network.getIdentifiables()) {
         for (const auto& extension : identifiable.getExtensions()) {
-            names.insert(extension.getName());
+            const auto& serializer = extensionProviders.findProvider(extension.getName());
+            if (serializer && serializer.get().isSerializable(extension)) {
+                names.insert(extension.getName());
+            }
         }
     }
     return names;
@@ -76,15 +81,14 @@ stdcxx::CReference<ExtensionXmlSerializer> getExtensionSerializer(const ExportOp
         serializer = stdcxx::cref(extensionProviders.findProviderOrThrowException(extension.getName()));
     } else {
         serializer = extensionProviders.findProvider(extension.getName());
-        if (serializer) {
-            if (!serializer.get().isSerializable(extension)) {
-                serializer.reset();
-            }
-        } else {
+        if (!serializer) {
             logging::Logger& logger = logging::LoggerFactory::getLogger<NetworkXml>();
             logger.warn("No extension XML serializer for %1%", extension.getName());
         }
     }
+    if (serializer && !serializer.get().isSerializable(extension)) {
+        serializer.reset();
+    }
 
     return serializer;
 }
@@ -188,13 +192,20 @@ void writeExtensions(const Network& network, NetworkXmlWriterContext& context) {
         if (!context.isExportedEquipment(identifiable.getId()) || boost::empty(identifiable.getExtensions()) || !context.getOptions().hasAtLeastOneExtension(identifiable.getExtensions())) {
             continue;
         }
-        context.getWriter().writeStartElement(context.getVersion().getPrefix(), EXTENSION);
-        context.getWriter().writeAttribute(ID, context.getAnonymizer().anonymizeString(identifiable.getId()));
+        std::vector<stdcxx::CReference<Extension>> extensions;
         for (const auto& extension : identifiable.getExtensions()) {
-            if (context.getOptions().withExtension(extension.getName())) {
-                writeExtension(extension, context);
+            if (context.getOptions().withExtension(extension.getName()) && getExtensionSerializer(context.getOptions(), extension)) {
+                extensions.push_back(stdcxx::cref(extension));
             }
         }
+        if (extensions.empty()) {
+            continue;
+        }
+        context.getWriter().writeStartElement(context.getVersion().getPrefix(), EXTENSION);
+        context.getWriter().writeAttribute(ID, context.getAnonymizer().anonymizeString(identifiable.getId()));
+        for (const auto& extension : extensions) {
+            writeExtension(extension.get(), context);
+        }
         context.getWriter().writeEndElement();
     }
 }
-- 
2.43.0


From 0263c22a743ddfb0890d323fd1bb2b99d6f0adfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:15 +0000
Subject: [PATCH 28/59] fix: a date without time zone is printed as it is read
 back

---
 src/stdcxx/DateTime.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/stdcxx/DateTime.cpp b/src/stdcxx/DateTime.cpp
index 1f36c57..eafc946 100644
--- a/src/stdcxx/DateTime.cpp
+++ b/src/stdcxx/DateTime.cpp
@@ -17,6 +17,10 @@
 
 namespace stdcxx {
 
+static boost::local_time::time_zone_ptr utc() {
+    return boost::local_time::time_zone_ptr(new boost::local_time::posix_time_zone("UTC+00:00"));
+}
+
 DateTime DateTime::parse(const std::string& date) {
     static std::string s_iso8601 = "%Y-%m-%dT%H:%M:%S%F%ZP";
 
@@ -36,11 +40,11 @@ DateTime DateTime::parse(const std::string& date) {
 }
 
 DateTime::DateTime() :
-    m_dateTime(boost::posix_time::second_clock::universal_time(), boost::local_time::time_zone_ptr()) {
+    m_dateTime(boost::posix_time::second_clock::universal_time(), utc()) {
 }
 
 DateTime::DateTime(const boost::local_time::local_date_time& dateTime) :
-    m_dateTime(dateTime) {
+    m_dateTime(dateTime.zone() ? dateTime : boost::local_time::local_date_time(dateTime.utc_time(), utc())) {
 }
 
 std::string DateTime::toString() const {
-- 
2.43.0


From 9c3a4e03e78e21c9eb19cc35037ea86528277a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 29/59] fix: an active power control without droop is read back

---
 extensions/iidm/src/ActivePowerControlXmlSerializer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensions/iidm/src/ActivePowerControlXmlSerializer.cpp b/extensions/iidm/src/ActivePowerControlXmlSerializer.cpp
index 5d03fb5..98adca1 100644
--- a/extensions/iidm/src/ActivePowerControlXmlSerializer.cpp
+++ b/extensions/iidm/src/ActivePowerControlXmlSerializer.cpp
@@ -19,6 +19,7 @@
 #include <powsybl/iidm/extensions/iidm/ActivePowerControl.hpp>
 #include <powsybl/iidm/extensions/iidm/ActivePowerControlAdder.hpp>
 
+#include <powsybl/stdcxx/math.hpp>
 #include <powsybl/xml/XmlStreamReader.hpp>
 #include <powsybl/xml/XmlStreamWriter.hpp>
 
@@ -36,7 +37,7 @@ ActivePowerControlXmlSerializer::ActivePowerControlXmlSerializer() :
 
 Extension& ActivePowerControlXmlSerializer::read(Extendable& extendable, converter::xml::NetworkXmlReaderContext& context) const {
     const auto& participate = context.getReader().getAttributeValue<bool>("participate");
-    const auto& droop = context.getReader().getAttributeValue<double>("droop");
+    const auto& droop = context.getReader().getOptionalAttributeValue("droop", stdcxx::nan());
 
     extendable.newExtension<ActivePowerControlAdder>().withParticipate(participate).withDroop(droop).add();
     return extendable.getExtension<ActivePowerControl>();
-- 
2.43.0


From 5f8ab9ac8115b40dabaa8e06b2886ac5a1f9bc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:31 +0000
Subject: [PATCH 30/59] fix: bus/breaker topologies can be exported anonymized

---
 src/iidm/converter/xml/VoltageLevelXml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iidm/converter/xml/VoltageLevelXml.cpp b/src/iidm/converter/xml/VoltageLevelXml.cpp
index dd4524c..881c6f5 100644
--- a/src/iidm/converter/xml/VoltageLevelXml.cpp
+++ b/src/iidm/converter/xml/VoltageLevelXml.cpp
@@ -177,8 +177,8 @@ void VoltageLevelXml::writeBusBreakerTopology(const VoltageLevel& voltageLevel,
         BusXml::getInstance().write(bus, voltageLevel, context);
     }
     for (const Switch& sw : voltageLevel.getBusBreakerView().getSwitches()) {
-        const Bus& b1 = voltageLevel.getBusBreakerView().getBus1(context.getAnonymizer().anonymizeString(sw.getId()));
-        const Bus& b2 = voltageLevel.getBusBreakerView().getBus2(context.getAnonymizer().anonymizeString(sw.getId()));
+        const Bus& b1 = voltageLevel.getBusBreakerView().getBus1(sw.getId());
+        const Bus& b2 = voltageLevel.getBusBreakerView().getBus2(sw.getId());
         if (!context.getFilter().test(b1) || !context.getFilter().test(b2)) {
             continue;
         }
-- 
2.43.0


From 792000147c4e8ee14faefc213d17798bdabede11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:31 +0000
Subject: [PATCH 31/59] fix: the converter stations of HVDC lines are
 anonymized

---
 src/iidm/converter/xml/HvdcLineXml.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/iidm/converter/xml/HvdcLineXml.cpp b/src/iidm/converter/xml/HvdcLineXml.cpp
index c59f78d..b921343 100644
--- a/src/iidm/converter/xml/HvdcLineXml.cpp
+++ b/src/iidm/converter/xml/HvdcLineXml.cpp
@@ -36,8 +36,8 @@ HvdcLine& HvdcLineXml::readRootElementAttributes(HvdcLineAdder& adder, NetworkXm
     const auto& convertersMode = Enum::fromString<HvdcLine::ConvertersMode>(context.getReader().getAttributeValue(CONVERTERS_MODE));
     const auto& activePowerSetpoint = context.getReader().getAttributeValue<double>(ACTIVE_POWER_SETPOINT);
     const auto& maxP = context.getReader().getAttributeValue<double>(MAX_P);
-    const std::string& converterStation1 = context.getReader().getAttributeValue(CONVERTER_STATION1);
-    const std::string& converterStation2 = context.getReader().getAttributeValue(CONVERTER_STATION2);
+    const std::string& converterStation1 = context.getAnonymizer().deanonymizeString(context.getReader().getAttributeValue(CONVERTER_STATION1));
+    const std::string& converterStation2 = context.getAnonymizer().deanonymizeString(context.getReader().getAttributeValue(CONVERTER_STATION2));
     return adder.setR(r)
         .setNominalV(nominalV)
         .setConvertersMode(convertersMode)
@@ -60,8 +60,8 @@ void HvdcLineXml::writeRootElementAttributes(const HvdcLine& line, const Network
     context.getWriter().writeAttribute(CONVERTERS_MODE, Enum::toString(line.getConvertersMode()));
     context.getWriter().writeAttribute(ACTIVE_POWER_SETPOINT, line.getActivePowerSetpoint());
     context.getWriter().writeAttribute(MAX_P, line.getMaxP());
-    context.getWriter().writeAttribute(CONVERTER_STATION1, line.getConverterStation1().get().getId());
-    context.getWriter().writeAttribute(CONVERTER_STATION2, line.getConverterStation2().get().getId());
+    context.getWriter().writeAttribute(CONVERTER_STATION1, context.getAnonymizer().anonymizeString(line.getConverterStation1().get().getId()));
+    context.getWriter().writeAttribute(CONVERTER_STATION2, context.getAnonymizer().anonymizeString(line.getConverterStation2().get().getId()));
 }
 
 }  // namespace xml
-- 
2.43.0


From 2d523863ab6d33083107d529cbc7d8fbec6b1d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:31 +0000
Subject: [PATCH 32/59] fix: exporting an extension to a format version it does
 not support is explicitly refused

---
 .../xml/AbstractVersionableExtensionXmlSerializer.cpp      | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/iidm/converter/xml/AbstractVersionableExtensionXmlSerializer.cpp b/src/iidm/converter/xml/AbstractVersionableExtensionXmlSerializer.cpp
index 3e6c357..8f47d5f 100644
--- a/src/iidm/converter/xml/AbstractVersionableExtensionXmlSerializer.cpp
+++ b/src/iidm/converter/xml/AbstractVersionableExtensionXmlSerializer.cpp
@@ -77,7 +77,12 @@ const std::string& AbstractVersionableExtensionXmlSerializer::getVersion() const
 }
 
 const std::string& AbstractVersionableExtensionXmlSerializer::getVersion(const IidmXmlVersion& networkVersion) const {
-    return m_extensionVersions.at(networkVersion.toString(".")).back();
+    const auto& strVersion = networkVersion.toString(".");
+    const auto& it = m_extensionVersions.find(strVersion);
+    if (it == m_extensionVersions.end()) {
+        throw PowsyblException(stdcxx::format("IIDM-XML version of network (%1%) is not supported by the %2% extension's XML serializer", strVersion, getExtensionName()));
+    }
+    return it->second.back();
 }
 
 }  // namespace xml
-- 
2.43.0


From 7c9894c87f5296decf8f07bfe9fc67d7f0fa70c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:31 +0000
Subject: [PATCH 33/59] fix: incompatible elements are left out when exporting
 to an old version with errors logged

---
 src/iidm/converter/xml/IidmXmlUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/converter/xml/IidmXmlUtil.cpp b/src/iidm/converter/xml/IidmXmlUtil.cpp
index d47836e..8de64c8 100644
--- a/src/iidm/converter/xml/IidmXmlUtil.cpp
+++ b/src/iidm/converter/xml/IidmXmlUtil.cpp
@@ -103,7 +103,7 @@ void IidmXmlUtil::assertMinimumVersionIfNotDefault(bool valueIsNotDefault, const
 void IidmXmlUtil::assertMinimumVersionAndRunIfNotDefault(bool valueIsNotDefault, const std::string& rootElementName, const std::string& elementName, const char* errorMessage, const IidmXmlVersion& minVersion, const NetworkXmlWriterContext& context, const std::function<void()>& runnable) {
     if (valueIsNotDefault) {
         assertMinimumVersion(rootElementName, elementName, errorMessage, minVersion, context);
-        runnable();
+        runFromMinimumVersion(minVersion, context.getVersion(), runnable);
     }
 }
 
-- 
2.43.0


From c8684d00162d5abab0169ed7f20a9aa030a09ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:30 +0000
Subject: [PATCH 34/59] fix: aliases are left out when exporting to an old
 version with errors logged

---
 src/iidm/converter/xml/AliasesXml.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/iidm/converter/xml/AliasesXml.cpp b/src/iidm/converter/xml/AliasesXml.cpp
index d01f9a9..ec2f810 100644
--- a/src/iidm/converter/xml/AliasesXml.cpp
+++ b/src/iidm/converter/xml/AliasesXml.cpp
@@ -35,6 +35,9 @@ void AliasesXml::read(Identifiable& identifiable, const NetworkXmlReaderContext&
 
 void AliasesXml::write(const Identifiable& identifiable, const std::string& rootElementName, NetworkXmlWriterContext& context) {
     IidmXmlUtil::assertMinimumVersionIfNotDefault(identifiable.hasAliases(), rootElementName, ALIAS, ErrorMessage::NOT_DEFAULT_NOT_SUPPORTED, IidmXmlVersion::V1_3(), context);
+    if (context.getVersion() < IidmXmlVersion::V1_3()) {
+        return;
+    }
     for (const std::string& alias : identifiable.getAliases()) {
         context.getWriter().writeStartElement(context.getVersion().getPrefix(), ALIAS);
         IidmXmlUtil::runFromMinimumVersion(IidmXmlVersion::V1_4(), context.getVersion(), [&context, &alias, &identifiable]() {
-- 
2.43.0


From 78cdbb0ff0ffc9c1ad4380f60e046f545205ecef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:10 +0000
Subject: [PATCH 35/59] fix: connected components follow the creation and the
 removal of HVDC lines

---
 src/iidm/HvdcLine.cpp      | 6 ++++++
 src/iidm/HvdcLineAdder.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/iidm/HvdcLine.cpp b/src/iidm/HvdcLine.cpp
index 1c0e66b..af014df 100644
--- a/src/iidm/HvdcLine.cpp
+++ b/src/iidm/HvdcLine.cpp
@@ -7,6 +7,7 @@
 
 #include <powsybl/iidm/HvdcLine.hpp>
 
+#include <powsybl/iidm/ConnectedComponentsManager.hpp>
 #include <powsybl/iidm/Enum.hpp>
 #include <powsybl/iidm/Network.hpp>
 #include <powsybl/iidm/ValidationUtils.hpp>
@@ -130,6 +131,11 @@ void HvdcLine::remove() {
     m_converterStation2 = stdcxx::ref<HvdcConverterStation>();
 
     network.remove(*this);
+
+    // the removed line may have joined two connected components
+    network.getVariantManager().forEachVariant([&network]() {
+        network.getConnectedComponentsManager().invalidate();
+    });
 }
 
 HvdcLine& HvdcLine::setActivePowerSetpoint(double activePowerSetpoint) {
diff --git a/src/iidm/HvdcLineAdder.cpp b/src/iidm/HvdcLineAdder.cpp
index f33562f..092d339 100644
--- a/src/iidm/HvdcLineAdder.cpp
+++ b/src/iidm/HvdcLineAdder.cpp
@@ -7,6 +7,7 @@
 
 #include <powsybl/iidm/HvdcLineAdder.hpp>
 
+#include <powsybl/iidm/ConnectedComponentsManager.hpp>
 #include <powsybl/iidm/HvdcConverterStation.hpp>
 #include <powsybl/iidm/HvdcLine.hpp>
 #include <powsybl/iidm/Network.hpp>
@@ -48,6 +49,11 @@ HvdcLine& HvdcLineAdder::add() {
                                                                           converterStation1, converterStation2);
     auto& line = m_network.checkAndAdd<HvdcLine>(std::move(ptrHvdcLine));
 
+    // the new line may join two connected components
+    m_network.getVariantManager().forEachVariant([this]() {
+        m_network.getConnectedComponentsManager().invalidate();
+    });
+
     return line;
 }
 
-- 
2.43.0


From 423d8827803b9a2823cca51b2c8b411117c3b39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:20 +0000
Subject: [PATCH 36/59] fix: connection requests ignore paths through open load
 break switches and change nothing when they fail

---
 src/iidm/NodeBreakerVoltageLevel.cpp | 29 ++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/iidm/NodeBreakerVoltageLevel.cpp b/src/iidm/NodeBreakerVoltageLevel.cpp
index 4e4fb20..e67c130 100644
--- a/src/iidm/NodeBreakerVoltageLevel.cpp
+++ b/src/iidm/NodeBreakerVoltageLevel.cpp
@@ -113,15 +113,15 @@ bool NodeBreakerVoltageLevel::connect(Terminal& terminal) {
 
     unsigned long node = nodeTerminal.getNode();
 
-    // find all paths starting from the current terminal to a busbar section that does not contain an open disconnector
+    // find all paths starting from the current terminal to a busbar section that does not contain an open switch that cannot be operated (disconnector, load break switch)
     // paths are already sorted
     node_breaker_voltage_level::Graph::VertexVisitor isBusbarSection = [](const stdcxx::Reference<NodeTerminal>& refTerminal) {
         return static_cast<bool>(refTerminal) && refTerminal.get().getConnectable().get().getType() == ConnectableType::BUSBAR_SECTION;
     };
-    node_breaker_voltage_level::Graph::EdgeVisitor isOpenedDisconnector = [](const stdcxx::Reference<Switch>& aSwitch) {
-        return aSwitch && aSwitch.get().getKind() == SwitchKind::DISCONNECTOR && aSwitch.get().isOpen();
+    node_breaker_voltage_level::Graph::EdgeVisitor isOpenedNonBreaker = [](const stdcxx::Reference<Switch>& aSwitch) {
+        return aSwitch && aSwitch.get().getKind() != SwitchKind::BREAKER && aSwitch.get().isOpen();
     };
-    const auto& paths = m_graph.findAllPaths(node, isBusbarSection, isOpenedDisconnector);
+    const auto& paths = m_graph.findAllPaths(node, isBusbarSection, isOpenedNonBreaker);
 
     bool connected = false;
     if (!paths.empty()) {
@@ -168,39 +168,44 @@ bool NodeBreakerVoltageLevel::disconnect(Terminal& terminal) {
 
     unsigned long node = nodeTerminal.getNode();
 
-    // find all paths starting from the current terminal to a busbar section that does not contain an open disconnector
+    // find all paths starting from the current terminal to a busbar section that does not contain an open switch that cannot be operated (disconnector, load break switch)
     node_breaker_voltage_level::Graph::VertexVisitor isBusbarSection = [](const stdcxx::Reference<NodeTerminal>& refTerminal) {
         return static_cast<bool>(refTerminal) && refTerminal.get().getConnectable().get().getType() == ConnectableType::BUSBAR_SECTION;
     };
-    node_breaker_voltage_level::Graph::EdgeVisitor isOpenedDisconnector = [](const stdcxx::Reference<Switch>& aSwitch) {
-        return aSwitch && aSwitch.get().getKind() == SwitchKind::DISCONNECTOR && aSwitch.get().isOpen();
+    node_breaker_voltage_level::Graph::EdgeVisitor isOpenedNonBreaker = [](const stdcxx::Reference<Switch>& aSwitch) {
+        return aSwitch && aSwitch.get().getKind() != SwitchKind::BREAKER && aSwitch.get().isOpen();
     };
-    const auto& paths = m_graph.findAllPaths(node, isBusbarSection, isOpenedDisconnector);
+    const auto& paths = m_graph.findAllPaths(node, isBusbarSection, isOpenedNonBreaker);
 
     if (paths.empty()) {
         return false;
     }
 
+    std::vector<std::reference_wrapper<Switch>> breakers;
     for (const auto& path : paths) {
         bool pathOpen = false;
         for (unsigned long e : path) {
             const auto& aSwitch = m_graph.getEdgeObject(e);
             if (aSwitch && aSwitch.get().getKind() == SwitchKind::BREAKER) {
-                if (!aSwitch.get().isOpen()) {
-                    aSwitch.get().setOpen(true);
-                }
                 // Open one breaker is sufficient to disconnect the terminal
+                breakers.emplace_back(aSwitch.get());
                 pathOpen = true;
                 break;
             }
         }
 
-        // No breaker found, the terminal is still connected
+        // No breaker found, the terminal cannot be disconnected
         if (!pathOpen) {
             return false;
         }
     }
 
+    for (Switch& breaker : breakers) {
+        if (!breaker.isOpen()) {
+            breaker.setOpen(true);
+        }
+    }
+
     // For all paths, a breaker has been found, the terminal is disconnected
     return true;
 }
-- 
2.43.0


From 1ab4580b6712a38da1cf92078dc3be5e50ea8805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 37/59] fix: allow the variant manager to be queried by the
 function given to forEachVariant

---
 include/powsybl/iidm/VariantManager.hpp |  3 ++-
 src/iidm/VariantManager.cpp             | 14 +++++++-------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/powsybl/iidm/VariantManager.hpp b/include/powsybl/iidm/VariantManager.hpp
index 4273f18..ddc0fa2 100644
--- a/include/powsybl/iidm/VariantManager.hpp
+++ b/include/powsybl/iidm/VariantManager.hpp
@@ -79,7 +79,8 @@ private:
 
     std::unique_ptr<VariantContext> m_variantContext;
 
-    mutable std::mutex m_variantMutex;
+    // recursive, because the function given to forEachVariant may query the variant manager
+    mutable std::recursive_mutex m_variantMutex;
 
     std::unordered_map<std::string, unsigned long> m_variantsById;
 
diff --git a/src/iidm/VariantManager.cpp b/src/iidm/VariantManager.cpp
index 46b9160..1ce823c 100644
--- a/src/iidm/VariantManager.cpp
+++ b/src/iidm/VariantManager.cpp
@@ -88,7 +88,7 @@ void VariantManager::cloneVariant(const std::string& sourceVariantId, const std:
 
     logger.debug("Creating variants %1%", stdcxx::toString(targetVariantIds));
 
-    std::lock_guard<std::mutex> lock(m_variantMutex);
+    std::lock_guard<std::recursive_mutex> lock(m_variantMutex);
 
     unsigned long sourceIndex = getVariantIndex(sourceVariantId);
 
@@ -135,7 +135,7 @@ void VariantManager::cloneVariant(const std::string& sourceVariantId, const std:
 }
 
 void VariantManager::forEachVariant(const std::function<void()>& function) {
-    std::lock_guard<std::mutex> lock(m_variantMutex);
+    std::lock_guard<std::recursive_mutex> lock(m_variantMutex);
 
     VariantContextGuard context(*m_variantContext);
 
@@ -156,7 +156,7 @@ unsigned long VariantManager::getVariantArraySize() const {
 }
 
 std::set<std::string> VariantManager::getVariantIds() const {
-    std::lock_guard<std::mutex> lock(m_variantMutex);
+    std::lock_guard<std::recursive_mutex> lock(m_variantMutex);
 
     std::set<std::string> variantIds;
     std::for_each(m_variantsById.begin(), m_variantsById.end(), [&variantIds](const std::pair<std::string, unsigned long>& entry) {
@@ -180,7 +180,7 @@ unsigned long VariantManager::getVariantIndex(const std::string& variantId) cons
 }
 
 std::set<unsigned long> VariantManager::getVariantIndices() const {
-    std::lock_guard<std::mutex> lock(m_variantMutex);
+    std::lock_guard<std::recursive_mutex> lock(m_variantMutex);
 
     std::set<unsigned long> variantIndices;
     std::for_each(m_variantsById.begin(), m_variantsById.end(), [&variantIndices](const std::pair<std::string, unsigned long>& entry) {
@@ -191,7 +191,7 @@ std::set<unsigned long> VariantManager::getVariantIndices() const {
 }
 
 const std::string& VariantManager::getWorkingVariantId() const {
-    std::lock_guard<std::mutex> lock(m_variantMutex);
+    std::lock_guard<std::recursive_mutex> lock(m_variantMutex);
 
     unsigned long index = m_variantContext->getVariantIndex();
     const auto& it = std::find_if(m_variantsById.begin(), m_variantsById.end(), [index](const std::pair<std::string, unsigned long>& entry) {
@@ -208,7 +208,7 @@ bool VariantManager::isVariantMultiThreadAccessAllowed() const {
 void VariantManager::removeVariant(const std::string& variantId) {
     logging::Logger& logger = logging::LoggerFactory::getLogger<VariantManager>();
 
-    std::lock_guard<std::mutex> lock(m_variantMutex);
+    std::lock_guard<std::recursive_mutex> lock(m_variantMutex);
 
     if (variantId == getInitialVariantId()) {
         throw PowsyblException("Removing initial variant is forbidden");
@@ -252,7 +252,7 @@ void VariantManager::removeVariant(const std::string& variantId) {
 }
 
 void VariantManager::setWorkingVariant(const std::string& variantId) {
-    std::lock_guard<std::mutex> lock(m_variantMutex);
+    std::lock_guard<std::recursive_mutex> lock(m_variantMutex);
 
     unsigned long index = getVariantIndex(variantId);
     m_variantContext->setVariantIndex(index);
-- 
2.43.0


From 0325c32b3c1480bd84e98124968be35bcefde24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:26 +0000
Subject: [PATCH 38/59] fix: let threads write boolean states of the same
 object in different variants

---
 include/powsybl/iidm/DanglingLineGeneration.hpp | 2 +-
 include/powsybl/iidm/Generator.hpp              | 2 +-
 include/powsybl/iidm/ShuntCompensator.hpp       | 2 +-
 include/powsybl/iidm/Switch.hpp                 | 4 ++--
 include/powsybl/iidm/TapChanger.hpp             | 2 +-
 include/powsybl/iidm/VscConverterStation.hpp    | 2 +-
 src/iidm/BusTerminal.hpp                        | 2 +-
 7 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/powsybl/iidm/DanglingLineGeneration.hpp b/include/powsybl/iidm/DanglingLineGeneration.hpp
index 4ece846..c9a92d9 100644
--- a/include/powsybl/iidm/DanglingLineGeneration.hpp
+++ b/include/powsybl/iidm/DanglingLineGeneration.hpp
@@ -79,7 +79,7 @@ private:
 
     std::vector<double> m_targetV;
 
-    std::vector<bool> m_voltageRegulationOn;
+    std::vector<char> m_voltageRegulationOn;  // not std::vector<bool>, whose elements cannot be written by several threads
 };
 
 }  // namespace dangling_line
diff --git a/include/powsybl/iidm/Generator.hpp b/include/powsybl/iidm/Generator.hpp
index d360bc7..21d8183 100644
--- a/include/powsybl/iidm/Generator.hpp
+++ b/include/powsybl/iidm/Generator.hpp
@@ -99,7 +99,7 @@ private:
 
     std::reference_wrapper<Terminal> m_regulatingTerminal;
 
-    std::vector<bool> m_voltageRegulatorOn;
+    std::vector<char> m_voltageRegulatorOn;  // not std::vector<bool>, whose elements cannot be written by several threads
 
     std::vector<double> m_activePowerSetpoint;
 
diff --git a/include/powsybl/iidm/ShuntCompensator.hpp b/include/powsybl/iidm/ShuntCompensator.hpp
index 821c02d..262d3e1 100644
--- a/include/powsybl/iidm/ShuntCompensator.hpp
+++ b/include/powsybl/iidm/ShuntCompensator.hpp
@@ -90,7 +90,7 @@ private:
 
     std::reference_wrapper<Terminal> m_regulatingTerminal;
 
-    std::vector<bool> m_voltageRegulatorOn;
+    std::vector<char> m_voltageRegulatorOn;  // not std::vector<bool>, whose elements cannot be written by several threads
 
     std::vector<double> m_targetV;
 
diff --git a/include/powsybl/iidm/Switch.hpp b/include/powsybl/iidm/Switch.hpp
index 9a0d39c..730c84c 100644
--- a/include/powsybl/iidm/Switch.hpp
+++ b/include/powsybl/iidm/Switch.hpp
@@ -63,9 +63,9 @@ private:
 
     SwitchKind m_kind;
 
-    std::vector<bool> m_open;
+    std::vector<char> m_open;  // not std::vector<bool>, whose elements cannot be written by several threads
 
-    std::vector<bool> m_retained;
+    std::vector<char> m_retained;  // not std::vector<bool>, whose elements cannot be written by several threads
 };
 
 }  // namespace iidm
diff --git a/include/powsybl/iidm/TapChanger.hpp b/include/powsybl/iidm/TapChanger.hpp
index a738d54..57abec6 100644
--- a/include/powsybl/iidm/TapChanger.hpp
+++ b/include/powsybl/iidm/TapChanger.hpp
@@ -103,7 +103,7 @@ private:
 
     std::vector<long> m_tapPosition;
 
-    std::vector<bool> m_regulating;
+    std::vector<char> m_regulating;  // not std::vector<bool>, whose elements cannot be written by several threads
 
     std::vector<double> m_targetDeadband;
 
diff --git a/include/powsybl/iidm/VscConverterStation.hpp b/include/powsybl/iidm/VscConverterStation.hpp
index d3a49d5..b2b083e 100644
--- a/include/powsybl/iidm/VscConverterStation.hpp
+++ b/include/powsybl/iidm/VscConverterStation.hpp
@@ -49,7 +49,7 @@ private: // Identifiable
     const std::string& getTypeDescription() const override;
 
 private:
-    std::vector<bool> m_voltageRegulatorOn;
+    std::vector<char> m_voltageRegulatorOn;  // not std::vector<bool>, whose elements cannot be written by several threads
 
     std::vector<double> m_reactivePowerSetpoint;
 
diff --git a/src/iidm/BusTerminal.hpp b/src/iidm/BusTerminal.hpp
index ae19e82..a16b50f 100644
--- a/src/iidm/BusTerminal.hpp
+++ b/src/iidm/BusTerminal.hpp
@@ -81,7 +81,7 @@ protected: // MultiVariantObject
     void reduceVariantArraySize(unsigned long number) override;
 
 private:
-    std::vector<bool> m_connected;
+    std::vector<char> m_connected;  // not std::vector<bool>, whose elements cannot be written by several threads
 
     std::vector<std::string> m_connectableBusId;
 
-- 
2.43.0


From fb3eb994a2365aa7b5ca4c4a40639ccc58f825e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:23 +0000
Subject: [PATCH 39/59] fix: let several threads list the objects of a network

---
 include/powsybl/iidm/NetworkIndex.hpp |  2 +-
 include/powsybl/iidm/NetworkIndex.hxx | 15 +++++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/powsybl/iidm/NetworkIndex.hpp b/include/powsybl/iidm/NetworkIndex.hpp
index e48e555..911b41e 100644
--- a/include/powsybl/iidm/NetworkIndex.hpp
+++ b/include/powsybl/iidm/NetworkIndex.hpp
@@ -87,7 +87,7 @@ private:
 private:
     IdentifiableById m_objectsById;
 
-    mutable IdentifiablesByType m_objectsByType;
+    IdentifiablesByType m_objectsByType;
 
     std::map<std::string, std::string> m_idByAlias;
 };
diff --git a/include/powsybl/iidm/NetworkIndex.hxx b/include/powsybl/iidm/NetworkIndex.hxx
index 813b307..a2cf7d0 100644
--- a/include/powsybl/iidm/NetworkIndex.hxx
+++ b/include/powsybl/iidm/NetworkIndex.hxx
@@ -92,20 +92,27 @@ stdcxx::range<VoltageLevel> NetworkIndex::getAll<VoltageLevel, VoltageLevel>();
 
 template <typename T, typename U>
 stdcxx::const_range<U> NetworkIndex::getAll() const {
-    const auto& it = m_objectsByType[typeid(T)];
+    static const Identifiables s_noObjects;
+
+    // several threads may read at the same time: nothing must be inserted here
+    const auto& it = m_objectsByType.find(typeid(T));
+    const Identifiables& identifiables = (it != m_objectsByType.end()) ? it->second : s_noObjects;
 
     const auto& mapper = map<const U>;
 
-    return it | boost::adaptors::transformed(mapper);
+    return identifiables | boost::adaptors::transformed(mapper);
 }
 
 template <typename T, typename U>
 stdcxx::range<U> NetworkIndex::getAll() {
-    auto& it = m_objectsByType[typeid(T)];
+    static Identifiables s_noObjects;
+
+    const auto& it = m_objectsByType.find(typeid(T));
+    Identifiables& identifiables = (it != m_objectsByType.end()) ? it->second : s_noObjects;
 
     const auto& mapper = map<U>;
 
-    return it | boost::adaptors::transformed(mapper);
+    return identifiables | boost::adaptors::transformed(mapper);
 }
 
 template <typename T>
-- 
2.43.0


From 709e2dca285a6d0de1dd60bb2928b42e31cdc904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 40/59] fix: an edge from a vertex to itself is one edge of
 this vertex

---
 include/powsybl/math/UndirectedGraph.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/powsybl/math/UndirectedGraph.hxx b/include/powsybl/math/UndirectedGraph.hxx
index 953e4bc..f9c3350 100644
--- a/include/powsybl/math/UndirectedGraph.hxx
+++ b/include/powsybl/math/UndirectedGraph.hxx
@@ -196,7 +196,9 @@ const std::vector<std::vector<unsigned long> >& UndirectedGraph<V, E>::getAdjace
             const std::unique_ptr<Edge>& edge = m_edges[e];
             if (edge) {
                 m_adjacencyList[edge->getVertex1()].push_back(e);
-                m_adjacencyList[edge->getVertex2()].push_back(e);
+                if (edge->getVertex1() != edge->getVertex2()) {
+                    m_adjacencyList[edge->getVertex2()].push_back(e);
+                }
             }
         }
     }
-- 
2.43.0


From b8d04ad49b8acb6e364b2215dfd6466139d55436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 41/59] fix: traverse every terminal of the reached buses once

---
 src/iidm/BusBreakerVoltageLevel.cpp  | 39 ++++++++++++----------------
 src/iidm/NodeBreakerVoltageLevel.cpp |  9 +++----
 2 files changed, 20 insertions(+), 28 deletions(-)

diff --git a/src/iidm/BusBreakerVoltageLevel.cpp b/src/iidm/BusBreakerVoltageLevel.cpp
index 323126c..6713cf9 100644
--- a/src/iidm/BusBreakerVoltageLevel.cpp
+++ b/src/iidm/BusBreakerVoltageLevel.cpp
@@ -393,43 +393,38 @@ void BusBreakerVoltageLevel::traverse(BusTerminal& terminal, VoltageLevel::Topol
 }
 
 void BusBreakerVoltageLevel::traverse(BusTerminal& terminal, VoltageLevel::TopologyTraverser& traverser, TerminalSet& traversedTerminals) const {
-    if (traversedTerminals.find(terminal) != traversedTerminals.end()) {
+    if (!traversedTerminals.emplace(terminal).second) {
         return;
     }
 
     TerminalSet nextTerminals;
 
+    // a terminal is only traversed once, whatever the answer was
+    const auto& traverseTerminals = [&traverser, &traversedTerminals, &nextTerminals](ConfiguredBus& bus) {
+        bool traversed = false;
+        for (Terminal& t : bus.getTerminals()) {
+            if (traversedTerminals.emplace(t).second && traverser.traverse(t, t.isConnected())) {
+                addNextTerminals(t, nextTerminals);
+                traversed = true;
+            }
+        }
+        return traversed;
+    };
+
     // check if we are allowed to traverse the terminal itself
     if (traverser.traverse(terminal, terminal.isConnected())) {
-        traversedTerminals.emplace(terminal);
-
         addNextTerminals(terminal, nextTerminals);
 
         // then check we can traverse terminal connected to same bus
         unsigned long v = *getVertex(terminal.getConnectableBusId(), true);
-        ConfiguredBus& bus = m_graph.getVertexObject(v);
-        for (Terminal& t : bus.getTerminals()) {
-            if (!stdcxx::areSame(t, terminal) && traverser.traverse(t, t.isConnected())) {
-                addNextTerminals(t, nextTerminals);
-            }
-        }
+        traverseTerminals(m_graph.getVertexObject(v));
 
         // then go through other buses of the substation
-        m_graph.traverse(v, [this, &traverser, &traversedTerminals, &nextTerminals](unsigned long /*v1*/, unsigned long e, unsigned long v2) {
+        m_graph.traverse(v, [this, &traverser, &traverseTerminals](unsigned long /*v1*/, unsigned long e, unsigned long v2) {
             Switch& aSwitch = m_graph.getEdgeObject(e);
             ConfiguredBus& otherBus = m_graph.getVertexObject(v2);
-            if (traverser.traverse(aSwitch)) {
-                if (otherBus.getTerminalCount() == 0) {
-                    return math::TraverseResult::CONTINUE;
-                }
-
-                BusTerminal& otherTerminal = *otherBus.getTerminals().begin();
-                if (traverser.traverse(otherTerminal, otherTerminal.isConnected())) {
-                    traversedTerminals.emplace(otherTerminal);
-
-                    addNextTerminals(otherTerminal, nextTerminals);
-                    return math::TraverseResult::CONTINUE;
-                }
+            if (traverser.traverse(aSwitch) && (otherBus.getTerminalCount() == 0 || traverseTerminals(otherBus))) {
+                return math::TraverseResult::CONTINUE;
             }
             return math::TraverseResult::TERMINATE;
         });
diff --git a/src/iidm/NodeBreakerVoltageLevel.cpp b/src/iidm/NodeBreakerVoltageLevel.cpp
index e67c130..b86dd4e 100644
--- a/src/iidm/NodeBreakerVoltageLevel.cpp
+++ b/src/iidm/NodeBreakerVoltageLevel.cpp
@@ -426,13 +426,12 @@ void NodeBreakerVoltageLevel::traverse(NodeTerminal& terminal, VoltageLevel::Top
 }
 
 void NodeBreakerVoltageLevel::traverse(NodeTerminal& terminal, VoltageLevel::TopologyTraverser& traverser, TerminalSet& traversedTerminals) const {
-    if (traversedTerminals.find(terminal) != traversedTerminals.end()) {
+    // a terminal is only traversed once, whatever the answer was
+    if (!traversedTerminals.emplace(terminal).second) {
         return;
     }
 
     if (traverser.traverse(terminal, true)) {
-        traversedTerminals.emplace(terminal);
-
         unsigned long node = terminal.getNode();
         TerminalSet nextTerminals;
 
@@ -446,9 +445,7 @@ void NodeBreakerVoltageLevel::traverse(NodeTerminal& terminal, VoltageLevel::Top
                 if (!otherTerminal) {
                     return math::TraverseResult::CONTINUE;
                 }
-                if (traverser.traverse(otherTerminal.get(), true)) {
-                    traversedTerminals.emplace(otherTerminal.get());
-
+                if (traversedTerminals.emplace(otherTerminal.get()).second && traverser.traverse(otherTerminal.get(), true)) {
                     addNextTerminals(otherTerminal.get(), nextTerminals);
                     return math::TraverseResult::CONTINUE;
                 }
-- 
2.43.0


From 24d27e26d002c2026eda726f620808f79b095f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 42/59] fix: give each HVDC type its own name

---
 src/iidm/HvdcConverterStation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iidm/HvdcConverterStation.cpp b/src/iidm/HvdcConverterStation.cpp
index b89bd82..eb491da 100644
--- a/src/iidm/HvdcConverterStation.cpp
+++ b/src/iidm/HvdcConverterStation.cpp
@@ -52,8 +52,8 @@ namespace Enum {
 template <>
 const std::initializer_list<std::string>& getNames<HvdcConverterStation::HvdcType>() {
     static std::initializer_list<std::string> s_typeNames {
-            "LCC",
-            "VSC"
+            "VSC",
+            "LCC"
     };
     return s_typeNames;
 }
-- 
2.43.0


From c0ec572d230db91d5aa8bb7f5037fe5899a8180b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 43/59] fix: load the anonymized strings that contain the
 separator

---
 src/iidm/converter/SimpleAnonymizer.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/iidm/converter/SimpleAnonymizer.cpp b/src/iidm/converter/SimpleAnonymizer.cpp
index 95c6f2c..cb9a2f2 100644
--- a/src/iidm/converter/SimpleAnonymizer.cpp
+++ b/src/iidm/converter/SimpleAnonymizer.cpp
@@ -10,8 +10,6 @@
 #include <istream>
 #include <ostream>
 
-#include <boost/algorithm/string.hpp>
-
 #include <powsybl/PowsyblException.hpp>
 #include <powsybl/stdcxx/format.hpp>
 
@@ -76,14 +74,14 @@ void SimpleAnonymizer::read(std::istream& stream) {
     std::string line;
     while (std::getline(stream, line))
     {
-        std::vector<std::string> cells;
-        boost::split(cells, line, boost::is_any_of(";"));
+        // the anonymized string never contains the separator, the original one may
+        const auto& pos = line.rfind(';');
 
-        if (cells.size() != 2) {
+        if (pos == std::string::npos) {
             throw PowsyblException(stdcxx::format("Invalid line '%1%'", line));
         }
 
-        m_mapping.insert(Mapping::value_type(cells[0], cells[1]));
+        m_mapping.insert(Mapping::value_type(line.substr(0, pos), line.substr(pos + 1)));
     }
 }
 
-- 
2.43.0


From 3496ea37bacb10b32a91484fdb53ba5efcd5d3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 44/59] fix: refuse the numbers followed by other characters

---
 src/xml/XmlStreamReader.cpp | 45 ++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/xml/XmlStreamReader.cpp b/src/xml/XmlStreamReader.cpp
index 4d8fc78..9904bcc 100644
--- a/src/xml/XmlStreamReader.cpp
+++ b/src/xml/XmlStreamReader.cpp
@@ -25,13 +25,46 @@ namespace powsybl {
 
 namespace xml {
 
+// a number may only be followed by spaces
+void checkNumber(const std::string& str, size_t length) {
+    if (str.find_first_not_of(" \t\r\n", length) != std::string::npos) {
+        throw XmlStreamException(stdcxx::format("Unexpected number: %1%", str));
+    }
+}
+
 // std::stod refuses the subnormal numbers
 double toDouble(const std::string& str) {
     char* end = nullptr;
     double value = std::strtod(str.c_str(), &end);
     if (end == str.c_str() || std::isinf(value)) {
-        return std::stod(str);
+        value = std::stod(str);
+    }
+    checkNumber(str, end - str.c_str());
+    return value;
+}
+
+int toInt(const std::string& str) {
+    size_t length = 0;
+    int value = std::stoi(str, &length);
+    checkNumber(str, length);
+    return value;
+}
+
+long toLong(const std::string& str) {
+    size_t length = 0;
+    long value = std::stol(str, &length);
+    checkNumber(str, length);
+    return value;
+}
+
+unsigned long toUnsignedLong(const std::string& str) {
+    // std::stoul accepts the negative numbers
+    if (str.find('-') != std::string::npos) {
+        throw XmlStreamException(stdcxx::format("Unexpected number: %1%", str));
     }
+    size_t length = 0;
+    unsigned long value = std::stoul(str, &length);
+    checkNumber(str, length);
     return value;
 }
 
@@ -90,19 +123,19 @@ double XmlStreamReader::getAttributeValue(const std::string& attributeName) cons
 template <>
 int XmlStreamReader::getAttributeValue(const std::string& attributeName) const {
     XmlString value = getAttributeValue(attributeName, true);
-    return std::stoi(XML2S(value.get()));
+    return toInt(XML2S(value.get()));
 }
 
 template <>
 long XmlStreamReader::getAttributeValue(const std::string& attributeName) const {
     XmlString value = getAttributeValue(attributeName, true);
-    return std::stol(XML2S(value.get()));
+    return toLong(XML2S(value.get()));
 }
 
 template <>
 unsigned long XmlStreamReader::getAttributeValue(const std::string& attributeName) const {
     XmlString value = getAttributeValue(attributeName, true);
-    return std::stoul(XML2S(value.get()));
+    return toUnsignedLong(XML2S(value.get()));
 }
 
 std::string XmlStreamReader::getAttributeValue(const std::string& attributeName) const {
@@ -178,7 +211,7 @@ stdcxx::optional<int> XmlStreamReader::getOptionalAttributeValue(const std::stri
 
     const XmlString& str = getAttributeValue(attributeName, false);
     if (str) {
-        value = std::stoi(XML2S(str.get()));
+        value = toInt(XML2S(str.get()));
     }
 
     return value;
@@ -202,7 +235,7 @@ stdcxx::optional<unsigned long> XmlStreamReader::getOptionalAttributeValue(const
 
     const XmlString& str = getAttributeValue(attributeName, false);
     if (str) {
-        value = std::stoul(XML2S(str.get()));
+        value = toUnsignedLong(XML2S(str.get()));
     }
 
     return value;
-- 
2.43.0


From 29d0f258cf792fc0470c5b4814aa5f3297cc1b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:07 +0000
Subject: [PATCH 45/59] fix: refuse the vertices that cannot be allocated

---
 include/powsybl/math/UndirectedGraph.hxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/powsybl/math/UndirectedGraph.hxx b/include/powsybl/math/UndirectedGraph.hxx
index f9c3350..0c1f087 100644
--- a/include/powsybl/math/UndirectedGraph.hxx
+++ b/include/powsybl/math/UndirectedGraph.hxx
@@ -75,10 +75,14 @@ void UndirectedGraph<V, E>::addVertexIfNotPresent(unsigned long v) {
             m_availableVertices.erase(it);
         }
     } else {
-        for (unsigned int i = m_vertices.size(); i < v; ++i) {
-            m_availableVertices.insert(i);
+        if (v >= m_vertices.max_size()) {
+            throw PowsyblException(stdcxx::format("Vertex %1% is too large", v));
         }
+        unsigned long size = m_vertices.size();
         m_vertices.resize(v + 1);
+        for (unsigned long i = size; i < v; ++i) {
+            m_availableVertices.insert(i);
+        }
         m_vertices[v] = stdcxx::make_unique<Vertex>();
     }
     invalidateAdjacencyList();
-- 
2.43.0


From d04d3137dae997505bfbc8f90d60b09c515461fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:53 +0000
Subject: [PATCH 46/59] fix: return no merged bus for an unknown configured bus
 id instead of aborting

---
 src/iidm/BusBreakerVoltageLevelBusCache.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/iidm/BusBreakerVoltageLevelBusCache.cpp b/src/iidm/BusBreakerVoltageLevelBusCache.cpp
index 6a9c69f..a3e4dad 100644
--- a/src/iidm/BusBreakerVoltageLevelBusCache.cpp
+++ b/src/iidm/BusBreakerVoltageLevelBusCache.cpp
@@ -7,8 +7,6 @@
 
 #include "BusBreakerVoltageLevelBusCache.hpp"
 
-#include <cassert>
-
 #include <boost/range/adaptor/indirected.hpp>
 #include <boost/range/adaptor/map.hpp>
 
@@ -30,7 +28,9 @@ stdcxx::Reference<MergedBus> BusCache::getMergedBus(const std::string& id) const
 }
 
 stdcxx::Reference<MergedBus> BusCache::getMergedBus(const stdcxx::Reference<ConfiguredBus>& bus) const {
-    assert(bus);
+    if (!bus) {
+        return stdcxx::ref<MergedBus>();
+    }
 
     const auto& it = m_mapping.find(std::ref(bus.get()));
 
-- 
2.43.0


From e4d2a410576278d059c74310335f226df0d458c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:50 +0000
Subject: [PATCH 47/59] fix: log a message without parameters as it is instead
 of formatting it again

---
 include/powsybl/logging/Logger.hxx | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/include/powsybl/logging/Logger.hxx b/include/powsybl/logging/Logger.hxx
index 4f71b23..363a9de 100644
--- a/include/powsybl/logging/Logger.hxx
+++ b/include/powsybl/logging/Logger.hxx
@@ -16,38 +16,52 @@ namespace powsybl {
 
 namespace logging {
 
+namespace detail {
+
+// a message without parameters is not a format string: it is logged as is
+inline const std::string& toMessage(const std::string& message) {
+    return message;
+}
+
+template <typename... T>
+std::string toMessage(const std::string& message, const T&... args) {
+    return stdcxx::format(message, args...);
+}
+
+}  // namespace detail
+
 template <typename... T>
 void Logger::debug(const std::string& message, const T&... args) {
     if (isDebugEnabled()) {
-        log(Level::DEBUG, stdcxx::format(message, args...));
+        log(Level::DEBUG, detail::toMessage(message, args...));
     }
 }
 
 template <typename... T>
 void Logger::error(const std::string& message, const T&... args) {
     if (isErrorEnabled()) {
-        log(Level::ERROR, stdcxx::format(message, args...));
+        log(Level::ERROR, detail::toMessage(message, args...));
     }
 }
 
 template <typename... T>
 void Logger::info(const std::string& message, const T&... args) {
     if (isInfoEnabled()) {
-        log(Level::INFO, stdcxx::format(message, args...));
+        log(Level::INFO, detail::toMessage(message, args...));
     }
 }
 
 template <typename... T>
 void Logger::trace(const std::string& message, const T&... args) {
     if (isTraceEnabled()) {
-        log(Level::TRACE, stdcxx::format(message, args...));
+        log(Level::TRACE, detail::toMessage(message, args...));
     }
 }
 
 template <typename... T>
 void Logger::warn(const std::string& message, const T&... args) {
     if (isWarnEnabled()) {
-        log(Level::WARN, stdcxx::format(message, args...));
+        log(Level::WARN, detail::toMessage(message, args...));
     }
 }
 
-- 
2.43.0


From 4d1f35e362ae513bbe9811be110ab289ab4640ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:32 +0000
Subject: [PATCH 48/59] fix: let a range of distinct objects be iterated
 several times

---
 include/powsybl/iidm/util/DistinctPredicate.hpp |  6 +++---
 src/iidm/util/DistinctPredicate.cpp             | 13 +------------
 2 files changed, 4 insertions(+), 15 deletions(-)

diff --git a/include/powsybl/iidm/util/DistinctPredicate.hpp b/include/powsybl/iidm/util/DistinctPredicate.hpp
index f7fa21b..0c26b92 100644
--- a/include/powsybl/iidm/util/DistinctPredicate.hpp
+++ b/include/powsybl/iidm/util/DistinctPredicate.hpp
@@ -8,7 +8,6 @@
 #ifndef POWSYBL_IIDM_UTIL_DISTINCTPREDICATE_HPP
 #define POWSYBL_IIDM_UTIL_DISTINCTPREDICATE_HPP
 
-#include <memory>
 #include <set>
 #include <string>
 
@@ -20,7 +19,7 @@ class Identifiable;
 
 class DistinctPredicate {
 public:
-    DistinctPredicate();
+    DistinctPredicate() = default;
 
     ~DistinctPredicate() = default;
 
@@ -31,7 +30,8 @@ public:
     bool operator()(const Identifiable& identifiable) const;
 
 private:
-    std::shared_ptr<std::set<std::string> > m_ids;
+    // owned by each copy of the predicate, so that a filtered range can be iterated several times
+    mutable std::set<std::string> m_ids;
 };
 
 }  // namespace iidm
diff --git a/src/iidm/util/DistinctPredicate.cpp b/src/iidm/util/DistinctPredicate.cpp
index 9015cfd..f689c61 100644
--- a/src/iidm/util/DistinctPredicate.cpp
+++ b/src/iidm/util/DistinctPredicate.cpp
@@ -8,24 +8,13 @@
 #include <powsybl/iidm/util/DistinctPredicate.hpp>
 
 #include <powsybl/iidm/Identifiable.hpp>
-#include <powsybl/stdcxx/make_unique.hpp>
 
 namespace powsybl {
 
 namespace iidm {
 
-DistinctPredicate::DistinctPredicate() :
-    m_ids(std::make_shared<std::set<std::string>>()) {
-
-}
-
 bool DistinctPredicate::operator()(const Identifiable& identifiable) const {
-    if (m_ids->find(identifiable.getId()) == m_ids->end()) {
-        m_ids->insert(identifiable.getId());
-        return true;
-    }
-
-    return false;
+    return m_ids.insert(identifiable.getId()).second;
 }
 
 }  // namespace iidm
-- 
2.43.0


From 8dedfa60d6bdcba11795c4e7b28d092c19b35f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:04 +0000
Subject: [PATCH 49/59] fix: read completely a text made of several nodes

---
 src/xml/XmlStreamReader.cpp | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/xml/XmlStreamReader.cpp b/src/xml/XmlStreamReader.cpp
index 9904bcc..6f1de6c 100644
--- a/src/xml/XmlStreamReader.cpp
+++ b/src/xml/XmlStreamReader.cpp
@@ -313,8 +313,34 @@ int XmlStreamReader::next() const {
 }
 
 std::string XmlStreamReader::readCharacters() const {
-    xmlTextReaderRead(m_reader.get());
-    return getText();
+    checkNodeType(*m_reader, XML_READER_TYPE_ELEMENT);
+
+    std::string text;
+    if (xmlTextReaderIsEmptyElement(m_reader.get()) == 1) {
+        return text;
+    }
+
+    // the text may be made of several nodes, separated by comments or processing instructions
+    while (xmlTextReaderRead(m_reader.get()) == 1) {
+        switch (getCurrentNodeType()) {
+            case XML_READER_TYPE_END_ELEMENT:
+                return text;
+
+            case XML_READER_TYPE_COMMENT:
+            case XML_READER_TYPE_PROCESSING_INSTRUCTION:
+                break;
+
+            case XML_READER_TYPE_CDATA:
+                text += XML2S(xmlTextReaderConstValue(m_reader.get()));
+                break;
+
+            default:
+                text += getText();
+                break;
+        }
+    }
+
+    throw XmlStreamException("Unexpected end of file while reading a text");
 }
 
 std::string XmlStreamReader::readUntilEndElement(const std::string& elementName) const {
@@ -339,6 +365,8 @@ std::string XmlStreamReader::readUntilEndElement(const std::string& elementName,
     std::string name = getLocalName();
     if (nodeType == XML_READER_TYPE_TEXT) {
         text = getText();
+    } else if (nodeType == XML_READER_TYPE_CDATA) {
+        text = XML2S(xmlTextReaderConstValue(m_reader.get()));
     }
 
     while (res == 1 && (nodeType != XML_READER_TYPE_END_ELEMENT || name != elementName)) {
@@ -350,7 +378,9 @@ std::string XmlStreamReader::readUntilEndElement(const std::string& elementName,
         nodeType = getCurrentNodeType();
         name = getLocalName();
         if (nodeType == XML_READER_TYPE_TEXT) {
-            text = getText();
+            text += getText();
+        } else if (nodeType == XML_READER_TYPE_CDATA) {
+            text += XML2S(xmlTextReaderConstValue(m_reader.get()));
         }
     }
 
-- 
2.43.0


From d2c56cab6c718a804b402c05157b181b26d03190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:24 +0000
Subject: [PATCH 50/59] fix: initialize libxml2 explicitly, so that several
 threads can read and write documents

---
 src/xml/XmlStreamReader.cpp | 4 ++++
 src/xml/XmlStreamWriter.cpp | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/xml/XmlStreamReader.cpp b/src/xml/XmlStreamReader.cpp
index 6f1de6c..7b86c65 100644
--- a/src/xml/XmlStreamReader.cpp
+++ b/src/xml/XmlStreamReader.cpp
@@ -11,6 +11,7 @@
 #include <cstdlib>
 
 #include <boost/algorithm/string/predicate.hpp>
+#include <libxml/parser.h>
 #include <libxml/xmlreader.h>
 
 #include <powsybl/AssertionError.hpp>
@@ -85,6 +86,9 @@ XmlStreamReader::XmlStreamReader(std::istream& stream, const std::string& encodi
 
     static const int XML_PARSE_NO_OPTION = 0;
 
+    // the initialization of libxml2 is thread-safe only if it is explicit
+    xmlInitParser();
+
     auto readCallback = [](void* context, char* buffer, int len) {
         XmlStreamReader& reader = *static_cast<XmlStreamReader*>(context);
         reader.m_stream.read(buffer, len);
diff --git a/src/xml/XmlStreamWriter.cpp b/src/xml/XmlStreamWriter.cpp
index 9f80944..6affae3 100644
--- a/src/xml/XmlStreamWriter.cpp
+++ b/src/xml/XmlStreamWriter.cpp
@@ -7,6 +7,7 @@
 
 #include <powsybl/xml/XmlStreamWriter.hpp>
 
+#include <libxml/parser.h>
 #include <libxml/xmlwriter.h>
 
 #include <powsybl/stdcxx/format.hpp>
@@ -24,7 +25,8 @@ XmlStreamWriter::XmlStreamWriter(std::ostream& stream, bool indent) :
     m_stream(stream),
     m_indent(indent),
     m_writer(nullptr) {
-
+    // the initialization of libxml2 is thread-safe only if it is explicit
+    xmlInitParser();
 }
 
 void XmlStreamWriter::setPrefix(const std::string& prefix, const std::string& uri) {
-- 
2.43.0


From 98ea5035766a468b1865f3a66a92607989227499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:59 +0000
Subject: [PATCH 51/59] fix: report a document that could not be written
 completely, and let no exception of a stream go through libxml2

---
 src/xml/XmlStreamWriter.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/xml/XmlStreamWriter.cpp b/src/xml/XmlStreamWriter.cpp
index 6affae3..94d6c73 100644
--- a/src/xml/XmlStreamWriter.cpp
+++ b/src/xml/XmlStreamWriter.cpp
@@ -87,6 +87,11 @@ void XmlStreamWriter::writeEndDocument() {
     // deleting the xmlTextWriter pointer automatically calls xmlTextWriterFlush() and write to stream
     // m_writer is instanciated in writeStartElement, so it must be deleted here
     m_writer.reset();
+
+    m_stream.flush();
+    if (m_stream.fail()) {
+        throw XmlStreamException("Failed to write the document");
+    }
 }
 
 void XmlStreamWriter::writeEndElement() {
@@ -151,7 +156,11 @@ void XmlStreamWriter::writeStartDocument(const std::string& encoding, const std:
     auto writeCallback = [](void* context, const char* buffer, int len) {
         XmlStreamWriter& writer = *static_cast<XmlStreamWriter*>(context);
 
-        writer.m_stream.write(buffer, len);
+        try {
+            writer.m_stream.write(buffer, len);
+        } catch (...) {
+            // an exception cannot go through libxml2: the state of the stream is checked at the end of the document
+        }
 
         return len;
     };
-- 
2.43.0


From 24a916b67facad69b1550e47b5e465cd4daeab24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:59 +0000
Subject: [PATCH 52/59] fix: let no exception of an input stream go through
 libxml2

---
 src/xml/XmlStreamReader.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/xml/XmlStreamReader.cpp b/src/xml/XmlStreamReader.cpp
index 7b86c65..f303ee4 100644
--- a/src/xml/XmlStreamReader.cpp
+++ b/src/xml/XmlStreamReader.cpp
@@ -91,7 +91,14 @@ XmlStreamReader::XmlStreamReader(std::istream& stream, const std::string& encodi
 
     auto readCallback = [](void* context, char* buffer, int len) {
         XmlStreamReader& reader = *static_cast<XmlStreamReader*>(context);
-        reader.m_stream.read(buffer, len);
+        try {
+            reader.m_stream.read(buffer, len);
+        } catch (...) {
+            // an exception cannot go through libxml2
+            if (reader.m_stream.bad()) {
+                return -1;
+            }
+        }
 
         return static_cast<int>(reader.m_stream.gcount());
     };
-- 
2.43.0


From 3af76f730362212e4ac61eca2a626e026a6a6546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:59 +0000
Subject: [PATCH 53/59] fix: report a mapping file of an anonymized export that
 could not be written

---
 src/iidm/converter/xml/NetworkXml.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iidm/converter/xml/NetworkXml.cpp b/src/iidm/converter/xml/NetworkXml.cpp
index 483d9ad..5fd1729 100644
--- a/src/iidm/converter/xml/NetworkXml.cpp
+++ b/src/iidm/converter/xml/NetworkXml.cpp
@@ -354,6 +354,10 @@ void NetworkXml::write(const std::string& filename, std::ostream& os, const Netw
             throw PowsyblException(stdcxx::format("Unable to open file '%1%' for writing", csvPath.string()));
         }
         context.getAnonymizer().write(csvStream);
+        csvStream.close();
+        if (csvStream.fail()) {
+            throw PowsyblException(stdcxx::format("Unable to write file '%1%'", csvPath.string()));
+        }
     }
 
     auto endTime = std::chrono::high_resolution_clock::now();
-- 
2.43.0


From 9f3a0e8e1f2e266913d164d1c831a3624a7eb90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:15 +0000
Subject: [PATCH 54/59] fix: keep the points of a reactive capability curve
 adder when it adds

---
 src/iidm/ReactiveCapabilityCurveAdder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iidm/ReactiveCapabilityCurveAdder.cpp b/src/iidm/ReactiveCapabilityCurveAdder.cpp
index bd15198..fbef7d6 100644
--- a/src/iidm/ReactiveCapabilityCurveAdder.cpp
+++ b/src/iidm/ReactiveCapabilityCurveAdder.cpp
@@ -58,7 +58,8 @@ ReactiveCapabilityCurve& ReactiveCapabilityCurveAdder::add() {
         throw ValidationException(owner, "A reactive capability curve should have at least two points");
     }
 
-    std::unique_ptr<ReactiveCapabilityCurve> limits = stdcxx::make_unique<ReactiveCapabilityCurve>(std::move(m_points));
+    std::map<double, ReactiveCapabilityCurve::Point> points = m_points;
+    std::unique_ptr<ReactiveCapabilityCurve> limits = stdcxx::make_unique<ReactiveCapabilityCurve>(std::move(points));
     m_owner.setReactiveLimits(std::move(limits));
 
     return m_owner.getReactiveLimits<ReactiveCapabilityCurve>();
-- 
2.43.0


From c2cbf26d05fb096d64dc7d2f81bfdeb2c46ccbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:15 +0000
Subject: [PATCH 55/59] fix: do not keep the rated voltage of a three windings
 transformer for the next one

---
 src/iidm/ThreeWindingsTransformerAdder.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/iidm/ThreeWindingsTransformerAdder.cpp b/src/iidm/ThreeWindingsTransformerAdder.cpp
index dfd4e39..948c63d 100644
--- a/src/iidm/ThreeWindingsTransformerAdder.cpp
+++ b/src/iidm/ThreeWindingsTransformerAdder.cpp
@@ -46,12 +46,13 @@ ThreeWindingsTransformer& ThreeWindingsTransformerAdder::add() {
     std::unique_ptr<Terminal> ptrTerminal3 = m_adder3->checkAndGetTerminal(voltageLevel3);
 
     // Define ratedU0 equal to ratedU1 if it has not been defined
-    if (std::isnan(m_ratedU0)) {
-        m_ratedU0 = leg1.getRatedU();
+    double ratedU0 = m_ratedU0;
+    if (std::isnan(ratedU0)) {
+        ratedU0 = leg1.getRatedU();
         logger.info(stdcxx::format("RatedU0 is not set. Fixed to leg1 ratedU: %1%", leg1.getRatedU()));
     }
 
-    std::unique_ptr<ThreeWindingsTransformer> ptrTransformer = stdcxx::make_unique<ThreeWindingsTransformer>(checkAndGetUniqueId(), getName(), isFictitious(), std::move(leg1), std::move(leg2), std::move(leg3), m_ratedU0);
+    std::unique_ptr<ThreeWindingsTransformer> ptrTransformer = stdcxx::make_unique<ThreeWindingsTransformer>(checkAndGetUniqueId(), getName(), isFictitious(), std::move(leg1), std::move(leg2), std::move(leg3), ratedU0);
     Terminal& terminal1 = ptrTransformer->addTerminal(std::move(ptrTerminal1));
     Terminal& terminal2 = ptrTransformer->addTerminal(std::move(ptrTerminal2));
     Terminal& terminal3 = ptrTransformer->addTerminal(std::move(ptrTerminal3));
-- 
2.43.0


From 57b715bce3aa5a67885ba8c101ac3b67e87e6e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:15 +0000
Subject: [PATCH 56/59] fix: refuse a discrete measurement whose type is not
 set

---
 .../iidm/extensions/iidm/DiscreteMeasurementAdder.hpp    | 2 +-
 extensions/iidm/src/DiscreteMeasurementAdder.cpp         | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/extensions/iidm/include/powsybl/iidm/extensions/iidm/DiscreteMeasurementAdder.hpp b/extensions/iidm/include/powsybl/iidm/extensions/iidm/DiscreteMeasurementAdder.hpp
index 904e835..85309d9 100644
--- a/extensions/iidm/include/powsybl/iidm/extensions/iidm/DiscreteMeasurementAdder.hpp
+++ b/extensions/iidm/include/powsybl/iidm/extensions/iidm/DiscreteMeasurementAdder.hpp
@@ -80,7 +80,7 @@ private:
 
     std::string m_id;
 
-    DiscreteMeasurement::Type m_type;
+    stdcxx::optional<DiscreteMeasurement::Type> m_type;
 
     stdcxx::optional<DiscreteMeasurement::TapChanger> m_tapChanger;
 
diff --git a/extensions/iidm/src/DiscreteMeasurementAdder.cpp b/extensions/iidm/src/DiscreteMeasurementAdder.cpp
index 383aaf2..c9b8998 100644
--- a/extensions/iidm/src/DiscreteMeasurementAdder.cpp
+++ b/extensions/iidm/src/DiscreteMeasurementAdder.cpp
@@ -26,12 +26,15 @@ DiscreteMeasurementAdder::DiscreteMeasurementAdder(DiscreteMeasurements& discret
 
 DiscreteMeasurement& DiscreteMeasurementAdder::add() {
     DiscreteMeasurementValidationUtil::checkId(m_id, m_discreteMeasurements);
-    DiscreteMeasurementValidationUtil::checkType(m_type, m_discreteMeasurements.getExtendable<Identifiable>().get());
-    DiscreteMeasurementValidationUtil::checkTapChanger(m_tapChanger, m_type, m_discreteMeasurements.getExtendable<Identifiable>().get());
+    if (!m_type) {
+        throw PowsyblException("Discrete measurement type can not be null");
+    }
+    DiscreteMeasurementValidationUtil::checkType(*m_type, m_discreteMeasurements.getExtendable<Identifiable>().get());
+    DiscreteMeasurementValidationUtil::checkTapChanger(m_tapChanger, *m_type, m_discreteMeasurements.getExtendable<Identifiable>().get());
     DiscreteMeasurementValidationUtil::checkValue(m_value, m_valid);
 
     auto discreteMeasurement = std::unique_ptr<DiscreteMeasurement>(
-        new DiscreteMeasurement(m_discreteMeasurements, m_id, m_type, m_tapChanger, m_properties, DiscreteMeasurementValidationUtil::getValueType(m_value), m_value, m_valid));
+        new DiscreteMeasurement(m_discreteMeasurements, m_id, *m_type, m_tapChanger, m_properties, DiscreteMeasurementValidationUtil::getValueType(m_value), m_value, m_valid));
     DiscreteMeasurement& result = *discreteMeasurement;
     m_discreteMeasurements.add(std::move(discreteMeasurement));
 
-- 
2.43.0


From f1eeb7a60281b2e8a5ab5a8de2aa2926ee936e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:15 +0000
Subject: [PATCH 57/59] fix: do not let the copy of an adder use the adder it
 was copied from

---
 include/powsybl/iidm/DanglingLineGenerationAdder.hpp     | 3 ++-
 .../powsybl/iidm/ThreeWindingsTransformerLegAdder.hpp    | 3 +++
 src/iidm/DanglingLineAdder.cpp                           | 2 +-
 src/iidm/DanglingLineGenerationAdder.cpp                 | 4 ++--
 src/iidm/ThreeWindingsTransformerLegAdder.cpp            | 9 +++++----
 5 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/powsybl/iidm/DanglingLineGenerationAdder.hpp b/include/powsybl/iidm/DanglingLineGenerationAdder.hpp
index 5e124a1..920dbed 100644
--- a/include/powsybl/iidm/DanglingLineGenerationAdder.hpp
+++ b/include/powsybl/iidm/DanglingLineGenerationAdder.hpp
@@ -20,6 +20,7 @@ namespace iidm {
 
 class DanglingLine;
 class DanglingLineAdder;
+class Network;
 
 namespace dangling_line {
 
@@ -44,7 +45,7 @@ public:
     GenerationAdder& setVoltageRegulationOn(bool voltageRegulationOn);
 
 private:
-    std::unique_ptr<Generation> build() const;
+    std::unique_ptr<Generation> build(Network& network) const;
 
     friend class iidm::DanglingLineAdder;
 
diff --git a/include/powsybl/iidm/ThreeWindingsTransformerLegAdder.hpp b/include/powsybl/iidm/ThreeWindingsTransformerLegAdder.hpp
index ecc73c3..7c172e5 100644
--- a/include/powsybl/iidm/ThreeWindingsTransformerLegAdder.hpp
+++ b/include/powsybl/iidm/ThreeWindingsTransformerLegAdder.hpp
@@ -20,6 +20,7 @@ namespace powsybl {
 
 namespace iidm {
 
+class Substation;
 class Terminal;
 class ThreeWindingsTransformerAdder;
 class VoltageLevel;
@@ -69,6 +70,8 @@ private:
 private:
     ThreeWindingsTransformerAdder& m_parent;
 
+    Substation& m_substation;
+
     unsigned long m_legNumber;
 
     std::string m_voltageLevelId;
diff --git a/src/iidm/DanglingLineAdder.cpp b/src/iidm/DanglingLineAdder.cpp
index 66db5f8..dcaa2ec 100644
--- a/src/iidm/DanglingLineAdder.cpp
+++ b/src/iidm/DanglingLineAdder.cpp
@@ -30,7 +30,7 @@ DanglingLine& DanglingLineAdder::add() {
     checkG(*this, m_g);
     checkB(*this, m_b);
 
-    std::unique_ptr<DanglingLine::Generation> ptrGeneration = m_generationAdder ? m_generationAdder->build() : nullptr;
+    std::unique_ptr<DanglingLine::Generation> ptrGeneration = m_generationAdder ? m_generationAdder->build(getNetwork()) : nullptr;
 
     std::unique_ptr<DanglingLine> ptrDanglingLine = stdcxx::make_unique<DanglingLine>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(),
                                                                                       m_p0, m_q0, m_r, m_x, m_g, m_b, m_ucteXnodeCode, std::move(ptrGeneration));
diff --git a/src/iidm/DanglingLineGenerationAdder.cpp b/src/iidm/DanglingLineGenerationAdder.cpp
index 4a967f5..b6c7962 100644
--- a/src/iidm/DanglingLineGenerationAdder.cpp
+++ b/src/iidm/DanglingLineGenerationAdder.cpp
@@ -29,8 +29,8 @@ DanglingLineAdder& GenerationAdder::add() {
     return m_parent;
 }
 
-std::unique_ptr<Generation> GenerationAdder::build() const {
-    return stdcxx::make_unique<Generation>(m_parent.getNetwork(), m_minP, m_maxP, m_targetP, m_targetQ, m_targetV, m_voltageRegulationOn);
+std::unique_ptr<Generation> GenerationAdder::build(Network& network) const {
+    return stdcxx::make_unique<Generation>(network, m_minP, m_maxP, m_targetP, m_targetQ, m_targetV, m_voltageRegulationOn);
 }
 
 GenerationAdder& GenerationAdder::setMaxP(double maxP) {
diff --git a/src/iidm/ThreeWindingsTransformerLegAdder.cpp b/src/iidm/ThreeWindingsTransformerLegAdder.cpp
index 4ad46f3..140909b 100644
--- a/src/iidm/ThreeWindingsTransformerLegAdder.cpp
+++ b/src/iidm/ThreeWindingsTransformerLegAdder.cpp
@@ -22,6 +22,7 @@ namespace three_windings_transformer {
 
 LegAdder::LegAdder(ThreeWindingsTransformerAdder& parent, unsigned long legNumber) :
     m_parent(parent),
+    m_substation(parent.getSubstation()),
     m_legNumber(legNumber) {
 }
 
@@ -67,19 +68,19 @@ std::unique_ptr<Terminal> LegAdder::checkAndGetTerminal(VoltageLevel& voltageLev
 VoltageLevel& LegAdder::checkAndGetVoltageLevel() {
     checkNotEmpty(*this, m_voltageLevelId, "voltage level is not set");
 
-    stdcxx::Reference<VoltageLevel> voltageLevel = m_parent.getNetwork().template find<VoltageLevel>(m_voltageLevelId);
+    stdcxx::Reference<VoltageLevel> voltageLevel = m_substation.getNetwork().template find<VoltageLevel>(m_voltageLevelId);
     if (!voltageLevel) {
         throw ValidationException(*this, stdcxx::format("voltage level '%1%' not found", m_voltageLevelId));
     }
-    if (!stdcxx::areSame(voltageLevel.get().getSubstation(), m_parent.getSubstation())) {
-        throw ValidationException(*this, stdcxx::format("voltage level shall belong to the substation '%1%'", m_parent.getSubstation().getId()));
+    if (!stdcxx::areSame(voltageLevel.get().getSubstation(), m_substation)) {
+        throw ValidationException(*this, stdcxx::format("voltage level shall belong to the substation '%1%'", m_substation.getId()));
     }
 
     return voltageLevel.get();
 }
 
 std::string LegAdder::getMessageHeader() const {
-    return stdcxx::format("3 windings transformer leg%1% in substation %2%: ", m_legNumber, m_parent.getSubstation());
+    return stdcxx::format("3 windings transformer leg%1% in substation %2%: ", m_legNumber, m_substation);
 }
 
 LegAdder& LegAdder::setB(double b) {
-- 
2.43.0


From 1c82b74fa06295a782ab6a578521a5942b7c27a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:15 +0000
Subject: [PATCH 58/59] fix: keep the name a temporary limit adder was given

---
 include/powsybl/iidm/LoadingLimitsAdder.hpp | 2 +-
 include/powsybl/iidm/LoadingLimitsAdder.hxx | 9 ++++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/powsybl/iidm/LoadingLimitsAdder.hpp b/include/powsybl/iidm/LoadingLimitsAdder.hpp
index 5449243..53eb35a 100644
--- a/include/powsybl/iidm/LoadingLimitsAdder.hpp
+++ b/include/powsybl/iidm/LoadingLimitsAdder.hpp
@@ -39,7 +39,7 @@ public:
         TemporaryLimitAdder& setValue(double value);
 
     private:
-        void checkAndGetUniqueName();
+        std::string checkAndGetUniqueName() const;
 
     private:
         OperationalLimitsOwner& m_owner;
diff --git a/include/powsybl/iidm/LoadingLimitsAdder.hxx b/include/powsybl/iidm/LoadingLimitsAdder.hxx
index 7b1361f..33d4ca7 100644
--- a/include/powsybl/iidm/LoadingLimitsAdder.hxx
+++ b/include/powsybl/iidm/LoadingLimitsAdder.hxx
@@ -41,24 +41,23 @@ LoadingLimitsAdder<L, A>& LoadingLimitsAdder<L, A>::TemporaryLimitAdder::endTemp
     if (!m_acceptableDuration) {
         throw ValidationException(m_owner, "acceptable duration is not set");
     }
-    checkAndGetUniqueName();
-    return m_parent.addTemporaryLimit(m_name, m_value, *m_acceptableDuration, m_fictitious);
+    return m_parent.addTemporaryLimit(checkAndGetUniqueName(), m_value, *m_acceptableDuration, m_fictitious);
 }
 
 template <typename L, typename A>
-void LoadingLimitsAdder<L, A>::TemporaryLimitAdder::checkAndGetUniqueName() {
+std::string LoadingLimitsAdder<L, A>::TemporaryLimitAdder::checkAndGetUniqueName() const {
     if (m_name.empty()) {
         throw ValidationException(m_owner, "name is not set");
     }
+    std::string uniqueName = m_name;
     if (m_ensureNameUnicity) {
         unsigned long i = 0UL;
-        std::string uniqueName = m_name;
         while (i < std::numeric_limits<unsigned long>::max() && m_parent.nameExists(uniqueName)) {
             uniqueName = m_name + stdcxx::format("#%1%", i);
             i++;
         }
-        m_name = uniqueName;
     }
+    return uniqueName;
 }
 
 template <typename L, typename A>
-- 
2.43.0


From eebeceef056e454c5bb1348354f1c5ca454f034e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:24 +0000
Subject: [PATCH 59/59] fix: keep the place of the reader when a text made of
 several nodes is read

---
 src/xml/XmlStreamReader.cpp | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/xml/XmlStreamReader.cpp b/src/xml/XmlStreamReader.cpp
index f303ee4..e52572c 100644
--- a/src/xml/XmlStreamReader.cpp
+++ b/src/xml/XmlStreamReader.cpp
@@ -326,32 +326,33 @@ int XmlStreamReader::next() const {
 std::string XmlStreamReader::readCharacters() const {
     checkNodeType(*m_reader, XML_READER_TYPE_ELEMENT);
 
-    std::string text;
-    if (xmlTextReaderIsEmptyElement(m_reader.get()) == 1) {
-        return text;
+    xmlNodePtr element = xmlTextReaderExpand(m_reader.get());
+    if (element == nullptr) {
+        throw XmlStreamException("An error occurred while reading a text");
     }
 
     // the text may be made of several nodes, separated by comments or processing instructions
-    while (xmlTextReaderRead(m_reader.get()) == 1) {
-        switch (getCurrentNodeType()) {
-            case XML_READER_TYPE_END_ELEMENT:
-                return text;
-
-            case XML_READER_TYPE_COMMENT:
-            case XML_READER_TYPE_PROCESSING_INSTRUCTION:
+    std::string text;
+    for (xmlNodePtr node = element->children; node != nullptr; node = node->next) {
+        switch (node->type) {
+            case XML_COMMENT_NODE:
+            case XML_PI_NODE:
                 break;
 
-            case XML_READER_TYPE_CDATA:
-                text += XML2S(xmlTextReaderConstValue(m_reader.get()));
+            case XML_TEXT_NODE:
+            case XML_CDATA_SECTION_NODE:
+                text += XML2S(node->content);
                 break;
 
             default:
-                text += getText();
-                break;
+                throw XmlStreamException(stdcxx::format("Unexpected node type: %1% (expected: %2%)", node->type, XML_TEXT_NODE));
         }
     }
 
-    throw XmlStreamException("Unexpected end of file while reading a text");
+    if (element->children != nullptr) {
+        xmlTextReaderRead(m_reader.get());
+    }
+    return text;
 }
 
 std::string XmlStreamReader::readUntilEndElement(const std::string& elementName) const {
-- 
2.43.0

