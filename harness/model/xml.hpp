// XML export and import in memory, with the serializers of all extensions registered.
#pragma once
#include "common.hpp"
#include "dump.hpp"

namespace model {

void registerSerializers();
// names of the extensions that have a serializer
const std::vector<std::string>& serializableExtensions();
std::string toXml(const iidm::Network& n, const iidm::converter::ExportOptions& o = iidm::converter::ExportOptions());
iidm::Network fromXml(const std::string& xml, const iidm::converter::ImportOptions& o = iidm::converter::ImportOptions());
// with an anonymizer: the mapping table is written to / read from `table`
std::string toXmlAnonymized(const iidm::Network& n, const iidm::converter::ExportOptions& o, std::string& table);
iidm::Network fromXmlAnonymized(const std::string& xml, const iidm::converter::ImportOptions& o, const std::string& table);

// the part of a dump that a document keeps: extensions without content have no XML form, an optional number that is
// zero may be omitted (its sign is lost), components of the same size may be numbered in any order;
// the schemas have no attribute for a fictitious network nor for the line names of a merged xnode
Dump xmlView(Dump d);

// first place where two texts differ
std::string firstDifference(const std::string& a, const std::string& b);

}  // namespace model
