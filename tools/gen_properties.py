#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))
PM="parameter/ParameterMgr.cpp"
p("P01","The first applicable configuration wins; none leaves values unchanged",
 "When configurations are applied, every domain takes the values of the first of its configurations, in declaration order, whose rule holds for the current criteria, and keeps its parameters untouched when no rule holds. A domain whose applicable configuration is the one it applied last is not rewritten, so a value changed meanwhile by another route is kept until another configuration becomes applicable or tuning mode is left. Parameters that belong to no domain are never changed by applying configurations.",
 ["histories","configurations","inputs"],"Any domain/configuration/rule set, any sequence of criterion changes, applications, tuning sessions and domain edits.",
 "The tests apply a few fixed criteria assignments on fixed domain files; the selection depends on the whole history (last applied configuration, edits, renames, deletions).",
 ["parameter/ConfigurableDomain.cpp","parameter/ConfigurableDomains.cpp","parameter/DomainConfiguration.cpp","parameter/AreaConfiguration.cpp",PM],
 [("first applicable lookup and last-applied comparison","CConfigurableDomain::apply / findApplicableDomainConfiguration"),("forced re-application on leaving tuning mode","CParameterMgr::setTuningMode")],
 ["parameter values read through element handles","dumped last applied configuration"])
p("P02","Application rules evaluate to their meaning and survive every rendering",
 "A rule holds exactly when its All/Any tree over criterion comparisons (Is, IsNot, Includes, Excludes) holds for the current criterion states, an empty All holds and an empty Any does not. A rule written as text is shown back as text, exported and imported as XML with the same meaning, and a rule text that is not well formed, or names an unknown criterion, comparison or value, is refused with an error and leaves the previous rule in force.",
 ["inputs","configurations","histories"],"Any rule tree, any criterion state including combined states of inclusive criteria, any malformed rule text.",
 "Tests evaluate a handful of rules; the truth of a rule depends on tree shape, criterion kind and every state combination.",
 ["parameter/RuleParser.cpp","parameter/CompoundRule.cpp","parameter/SelectionCriterionRule.cpp","parameter/SelectionCriterion.cpp","parameter/SelectionCriterionType.cpp","parameter/DomainConfiguration.cpp"],
 [("recursive evaluation","CCompoundRule::matches / CSelectionCriterionRule::matches"),("text parser","CRuleParser::parse"),("XML and text rendering","toXml / dump")],
 ["which configuration a domain applies","rule text returned by the rule query","exported XML"])
p("P03","Criteria and tuning mode gate every change of the platform state",
 "A criterion state set by the client is visible at once to readers but changes no parameter until configurations are applied. While tuning mode is on, applying configurations changes no parameter and no hardware, and outside tuning mode setting parameters, element bytes or element settings, and creating, deleting, filling, splitting, ordering, saving, restoring or importing domains and configurations, is refused with an error and changes nothing. Leaving tuning mode re-applies the configuration applicable to the current criteria in every domain, undoing values set by hand in domains that have one.",
 ["histories","inputs"],"Any interleaving of criterion changes, applications, tuning mode switches and client operations.",
 "Tests cover single transitions, not arbitrary histories mixing staged criteria, tuning mode and edits.",
 [PM,"parameter/SelectionCriterion.cpp","parameter/ParameterMgrPlatformConnector.cpp","parameter/ParameterMgrFullConnector.cpp"],
 [("tuning mode check","CParameterMgr::checkTuningModeOn / applyConfigurations"),("force apply","CParameterMgr::setTuningMode")],
 ["parameter values","hardware writes","status of each refused operation"])
p("P04","Hardware ends up with exactly the values the framework reports",
 "When automatic synchronisation is on, every accepted change of a parameter, whether by configuration application, tuning, bytes, XML, restore or handle access, has reached each subsystem object that covers it by the time the call returns, with the very bytes the parameters hold. When it is off, tuning writes and restores send nothing to the hardware, while applying configurations and typed handle writes still do, and an explicit synchronisation or switching it back on writes every object of the system once with its current bytes.",
 ["histories","inputs","configurations"],"Any structure and subsystem mapping, any history of accepted and refused operations, sync modes.",
 "Tests use one toy object per case; completeness over a tree of mapped elements and over all write routes is a property of every history.",
 ["parameter/SyncerSet.cpp","parameter/SubsystemObject.cpp","parameter/ConfigurableElement.cpp",PM,"parameter/BaseParameter.cpp"],
 [("syncer collection upwards/downwards","CConfigurableElement::fillSyncerSet, syncer(), getSyncer"),("auto sync switch","CParameterMgr::setAutoSync / sync")],
 ["bytes handed to each object of a monitoring subsystem plugin","parameter bytes"])
p("P05","Hardware writes respect domain order and element sequences",
 "Applying configurations writes the objects of ordinary domains each at most once and after all their values are in place, before any sequence-aware domain is written. Each sequence-aware domain then writes its elements one after the other in their declared sequence, and an element's values become visible to the hardware only at its turn. Re-ordering a domain's elements changes only that order, never the resulting values.",
 ["histories","configurations"],"Any mix of ordinary and sequence-aware domains, any element order including re-ordering in tuning.",
 "Tests check one order on one sequence; ordering must hold for all combinations of domains re-applied in the same pass.",
 ["parameter/ConfigurableDomains.cpp","parameter/ConfigurableDomain.cpp","parameter/DomainConfiguration.cpp","parameter/SyncerSet.cpp"],
 [("two pass application","CConfigurableDomains::apply"),("area by area restore with sync","CDomainConfiguration::restore"),("element order","CDomainConfiguration::setElementSequence / _orderedAreaConfigurationList")],
 ["ordered log of hardware writes with their bytes"])
p("P06","A subsystem that lost its state is rewritten on the next application",
 "A subsystem that reports it lost synchronisation gets all its objects rewritten with the values the framework holds at the next application of configurations, even if no configuration changes, and only once per report; other subsystems are not rewritten for it. A failing, dead or refusing hardware object never stops the remaining objects and domains from being processed, never alters the values the framework holds, and is reported as an error to the caller of the tuning operation that met it.",
 ["fault_sequences","histories"],"Any sequence of resynchronisation requests, dead subsystems and refused writes interleaved with applications and tuning.",
 "Fault timing against history is open ended; existing tests trigger one resync.",
 [PM,"parameter/SystemClass.cpp","parameter/Subsystem.cpp","parameter/SubsystemObject.cpp","parameter/SyncerSet.cpp"],
 [("resync polling","CSystemClass::checkForSubsystemsToResync / CParameterMgr::doApplyConfigurations"),("error collection","CSyncerSet::sync")],
 ["hardware writes per subsystem","log warnings","returned errors"])
p("P07","Start-up reads the hardware back, then applies configurations",
 "On start, before anything is written, every subsystem object holding a value that no currently applicable configuration provides is read back exactly once; objects that cannot be read, and virtual subsystems, take the default values of their parameters, which are inside each parameter's range. Then the configurations applicable to the initial criteria are applied, so the state after start equals read-back values overlaid with those configurations.",
 ["configurations","fault_sequences","inputs"],"Any structure, initial criteria, domain set, readable and unreadable objects and hardware contents.",
 "Tests start a few fixed structures with hardware that cannot be read.",
 [PM,"parameter/HardwareBackSynchronizer.cpp","parameter/SimulatedBackSynchronizer.cpp","parameter/SubsystemObject.cpp","parameter/VirtualSyncer.cpp","parameter/BaseParameter.cpp"],
 [("back synchronisation","CParameterMgr::createBackSynchronizer / start"),("defaults","setDefaultValues")],
 ["events of the monitoring subsystem during start","parameter values after start"])
p("P08","Parameter values are accepted iff encodable, and refused ones change nothing",
 "Setting a parameter, bit field, string, boolean or enumeration from text succeeds exactly when the text denotes a value inside its declared type, range and literal set, and reading it back denotes that same value. A refused text produces an error and leaves the stored value, and every other parameter, unchanged.",
 ["inputs","configurations"],"Every parameter type, size, range, Q format and value text, valid or not.",
 "Tests use sampled boundary values on few types; the input space is all texts times all declared types.",
 ["parameter/IntegerParameterType.h","parameter/FixedPointParameterType.cpp","parameter/FloatingPointParameterType.cpp","parameter/BooleanParameterType.cpp","parameter/EnumParameterType.cpp","parameter/StringParameterType.cpp","parameter/StringParameter.cpp","parameter/BitParameterType.cpp","parameter/ParameterType.cpp","utility/convert.hpp"],
 [("text to stored value","toBlackboard of each type"),("stored value to text","fromBlackboard of each type")],
 ["status, error and value returned by set/get parameter","raw bytes of the whole tree"])
p("P09","Adapted parameters convert between user and stored values exactly",
 "Through double access, a parameter with a linear adaptation stores truncate(user*numerator/denominator)+offset, one with a logarithmic adaptation stores the larger of truncate(log_base(user)*numerator/denominator)+offset and its floor value, and both read back the inverse of what they store. A user value whose image lies outside the declared stored range (too large, infinite, not a number) is refused and changes nothing; for a logarithmic adaptation, a value without logarithm counts as being below the floor value.",
 ["inputs","configurations"],"Any slope, offset, base, floor, integer size and user value.",
 "Tests sample a few adaptations and values.",
 ["parameter/ParameterAdaptation.cpp","parameter/LinearParameterAdaptation.cpp","parameter/LogarithmicParameterAdaptation.cpp","parameter/IntegerParameterType.h","parameter/BaseIntegerParameterType.cpp"],
 [("conversion","fromUserValue / toUserValue")],["raw bytes and values read back through double and text access"])
p("P10","Raw, hexadecimal and real value spaces describe the same stored value",
 "A value written in one value space and output format reads in every other as the representation of the same stored bits: raw decimal and raw hexadecimal output name the stored encoding, and writing any raw output back, in either format, restores the identical bits. Switching value space or output format never changes a stored value nor later results in the original space.",
 ["inputs","histories"],"Every numeric parameter kind and size (including arrays, bit fields and enumerations), every stored bit pattern, any switching order.",
 "Tests check few values per type, mostly positive ones.",
 ["parameter/ParameterType.cpp","parameter/EnumParameterType.cpp","parameter/FixedPointParameterType.cpp","parameter/FloatingPointParameterType.cpp","parameter/IntegerParameterType.h","parameter/BitParameterType.cpp","parameter/ParameterAccessContext.cpp"],
 [("raw formatting and sign extension","doSignExtension / makeEncodable / raw branches of toBlackboard and fromBlackboard")],
 ["parameter text in each space","raw bytes"])
p("P11","Parameters occupy disjoint storage laid out as declared",
 "The stored image of any element is the concatenation of its children in declaration order, each taking exactly its declared size, bit fields sharing their block at their declared bit positions, and little-endian encodings as declared. Writing one parameter, by any route, changes only that parameter's bits, and an element's bytes, its size and its children's values always agree.",
 ["inputs","configurations","histories"],"Any structure (component types, extension, arrays, bit blocks, strings), any write.",
 "Tests look at a parameter in isolation rather than at its neighbours.",
 ["parameter/ConfigurableElement.cpp","parameter/InstanceConfigurableElement.cpp","parameter/BitParameter.cpp","parameter/BitParameterType.cpp","parameter/ParameterBlackboard.cpp","parameter/BaseParameter.cpp","parameter/ComponentType.cpp"],
 [("offset assignment","CConfigurableElement::setOffset / getFootPrint"),("bit masking","CBitParameter / CBitParameterType")],
 ["bytes of each element and of the root"])
p("P12","Array parameters are addressable as a whole and per element",
 "Every element of an array parameter can be set and read alone by index without touching the others, the whole array reads as the list of its elements, and setting it from a list changes exactly its elements in order. Out of range or malformed indexes, lists longer than the array and invalid items are refused with an error and never touch storage outside the array.",
 ["inputs","configurations","histories"],"Any element type, array length, position in the tree, index text and list text, in the live state and in stored configurations.",
 "Tests use one small array at the start of storage.",
 ["parameter/ArrayParameter.cpp","parameter/ParameterType.cpp","parameter/PathNavigator.cpp","utility/Tokenizer.cpp"],
 [("index resolution","CArrayParameter::getIndex"),("list parsing","CArrayParameter::setValues")],
 ["whole array and element values, raw bytes of the tree"])
p("P13","Typed handle access is type-checked, owner-checked and equals text access",
 "Through an element handle a client reads typed values identical to the text view, and may write only parameters that belong to no domain; any write to others, of the wrong type, wrong array shape or out of range is refused with an error and changes nothing, and in tuning mode a write reports success but changes nothing. An accepted write stores the same value the equivalent text write would, in every element, and reaches the hardware.",
 ["inputs","histories","configurations"],"Every parameter kind, accessor, value and tuning state; ownership changing over the history.",
 "Tests cover a matrix of accessors on single parameters without ownership or neighbours.",
 ["parameter/ElementHandle.cpp","parameter/BaseParameter.cpp","parameter/Parameter.cpp","parameter/ArrayParameter.cpp","parameter/StringParameter.cpp","parameter/BitParameter.cpp"],
 [("checks and dispatch","ElementHandle::setAs / getAs"),("rogue check","isRogue")],
 ["status, typed values, text values, raw bytes, hardware writes"])
p("P14","Domain tuning operations are all-or-nothing edits of the declared model",
 "Creating, deleting and renaming domains and configurations, adding and removing elements, sequence awareness and rules behave as edits of an abstract list of domains, each an ordered list of uniquely named configurations and elements: every accepted operation has exactly its documented effect, every refused one (unknown or duplicate name, element already in the domain, element not in the domain) returns an error and has none. Listings, dumps and queries always show that model.",
 ["histories","inputs"],"Any sequence of domain editing commands with valid and invalid arguments, via API and via commands.",
 "Tests exercise each operation a few times from a fresh instance; the interplay is history dependent.",
 ["parameter/ConfigurableDomains.cpp","parameter/ConfigurableDomain.cpp","parameter/DomainConfiguration.cpp",PM],
 [("validation before edit","CConfigurableDomains / CConfigurableDomain operations")],
 ["command results and listings compared with a model after every step"])
p("P15","Every configuration holds its own values through edits of the domain",
 "Each configuration of a domain holds one value per parameter of the domain, independent of other configurations and of the current state, changed only by saving the state into it, editing it or importing. Adding an element captures the current values for all configurations, splitting an element and absorbing previously added descendants preserve every stored value, a new configuration starts with the values of an existing one (or the current state), and restoring writes exactly the stored values.",
 ["histories","inputs","configurations"],"Any sequence of add/remove/split/create/delete/save/restore/edit on any tree of elements.",
 "Values of every configuration after every edit history cannot be sampled by fixed scenarios.",
 ["parameter/ConfigurableDomain.cpp","parameter/DomainConfiguration.cpp","parameter/AreaConfiguration.cpp","parameter/BitwiseAreaConfiguration.cpp","parameter/ParameterBlackboard.cpp"],
 [("area configurations","CAreaConfiguration save/restore/copyTo/copyFrom"),("merge and split","CDomainConfiguration::merge/split/addConfigurableElement")],
 ["configuration parameter values read for every configuration and parameter after each step"])
p("P16","Domain export followed by import restores the domains",
 "Exporting domains with their settings and importing the result, into the same or another instance of the same structure, in any value space or output format, yields the same domains, configurations, order, rules, sequences, sequence awareness and values, except for the last digits of floating point values printed as text in the real space. A failed import reports an error and never leaves a partly imported domain set, and a single domain import touches no other domain.",
 ["inputs","histories","configurations"],"Any domain model reachable by editing, any value space, with and without settings, valid and corrupted documents.",
 "Tests round trip small hand-written documents.",
 [PM,"parameter/ConfigurableDomains.cpp","parameter/ConfigurableDomain.cpp","parameter/DomainConfiguration.cpp","parameter/AreaConfiguration.cpp","xmlserializer/XmlElement.cpp"],
 [("export and import","exportDomainsXml / importDomainsXml / importSingleDomainXml"),("settings","serializeXmlSettings")],
 ["complete observable domain state before export and after import"])
p("P17","Element settings round trip as XML and as bytes",
 "Reading an element's settings as XML or bytes and writing them back, possibly after arbitrary other changes, restores exactly the values under that element and nothing else, and reaches the hardware. Settings that do not fit the element (unknown or missing parameters, out of range values, wrong size, not XML) are refused with an error.",
 ["inputs","histories","configurations"],"Any element of any structure, any stored values, any malformed settings.",
 "Tests round trip single parameters.",
 [PM,"parameter/ElementHandle.cpp","parameter/ConfigurableElement.cpp","parameter/XmlParameterSerializingContext.cpp","parameter/BaseParameter.cpp","parameter/ArrayParameter.cpp"],
 [("settings XML","setSettingsAsXML / getSettingsAsXML"),("settings bytes","setSettingsAsBytes / getSettingsAsBytes")],
 ["element bytes and values before and after","hardware writes"])
p("P18","No input makes the framework crash or corrupt memory",
 "Whatever the arguments of commands, the values, rules, paths and XML documents given to the framework, and whatever the structure, settings and configuration files, it returns success or an error: it never aborts, raises undefined behaviour, or accesses memory out of bounds or after release, and what is refused is refused with an error (arrays, texts and nesting being small enough for memory and stack).",
 ["inputs","histories"],"Arbitrary, malformed and hostile text, XML, byte and command inputs in any state, including after failed operations.",
 "Robustness is over all inputs; tests contain few malformed ones and no sanitizer runs.",
 [PM,"parameter/CommandHandlerWrapper.cpp","xmlserializer/XmlMemoryDocSource.cpp","parameter/RuleParser.cpp","parameter/ArrayParameter.cpp","parameter/PathNavigator.cpp","parameter/Element.cpp","parameter/TypeElement.cpp"],
 [("argument and document validation","every entry point")],
 ["sanitizer reports, assertions and abnormal termination of the instrumented process","answer of each call"])
p("P19","The remote interface executes each request once and survives hostile peers",
 "A remote client's command is executed exactly once with exactly the arguments sent, stripped of surrounding blanks, and its own outcome and output are returned to that client, commands of one connection being executed in order. Malformed, truncated or oversized messages, and connections dropped at any point, only end that connection: the service keeps answering others with correct results, and stopping or destroying it, even when it failed to start, never crashes or hangs.",
 ["inputs","fault_sequences","histories"],"Any command and arguments, any byte stream, any disconnection point, any number of clients and server lifecycles.",
 "Tests run well-formed clients only.",
 ["remote-processor/Message.cpp","remote-processor/RequestMessage.cpp","remote-processor/AnswerMessage.cpp","remote-processor/RemoteProcessorServer.cpp","remote-processor/BackgroundRemoteProcessorServer.cpp","remote-processor/RemoteCommandHandlerTemplate.h","parameter/CommandHandlerWrapper.cpp"],
 [("framing and checksum","CMessage::serialize"),("accept loop","CRemoteProcessorServer::process / acceptRegister")],
 ["answers on the wire compared with direct execution","process survival under sanitizers"])
p("P20","Concurrent clients see atomic operations and no data race",
 "Concurrent threads that apply configurations, switch tuning mode, read and write parameters and configuration values through text or handles and edit domains on one instance, criteria being changed by no other thread than the one that applies configurations or leaves tuning mode, cause no data race or deadlock, and their results are those of some sequential order of the calls. In particular a reader never observes a half-written parameter or array, and hardware is never written by two threads at once.",
 ["schedules","histories"],"Any number of threads, any schedule, any mix of the locked operations.",
 "Unit tests are single threaded.",
 [PM,"parameter/ElementHandle.cpp","parameter/ParameterMgrPlatformConnector.cpp"],
 [("global blackboard mutex","CParameterMgr::getBlackboardMutex users")],
 ["race detector reports","call histories checked for a sequential explanation","overlap monitor in subsystem callbacks"])
p("P21","Instances are independent of each other",
 "Several instances living in one process, whether interleaved in one thread or driven from different threads, behave as if alone: operations, criteria, values, domains, hardware writes, errors and logs of one never show up in another. Creating, using and destroying instances in any order leaks no memory and leaves the others working.",
 ["histories","schedules"],"Any number of instances with same or different structures, any interleaving and destruction order.",
 "Tests use one instance per test case.",
 [PM,"parameter/ParameterMgrPlatformConnector.cpp","parameter/ParameterMgrFullConnector.cpp","parameter/SystemClass.cpp","bindings/c/ParameterFramework.cpp","xmlserializer/XmlElement.cpp"],
 [("no shared mutable state","instance ownership of libraries, logger, blackboard")],
 ["each instance compared with its own model","leak and race detectors"])
p("P22","The C interface reports every outcome and mirrors the framework",
 "Every C call succeeds or fails exactly as the framework operation it stands for, fails cleanly when called before start, twice, or with invalid criteria, values or names, and after each call the last error is empty on success and explains the failure otherwise. Returned strings and values are those of the framework, the caller owns returned strings, and creating, starting, using and destroying handles in any legal order leaks or corrupts nothing.",
 ["histories","inputs"],"Any legal call sequence with any criteria definitions, parameter paths and values.",
 "Tests cover fixed call sequences.",
 ["bindings/c/ParameterFramework.cpp","bindings/c/ParameterFramework.h"],
 [("wrapper and last error","PfwHandler / pfw* functions")],["return codes, last error, values, sanitizer reports"])
p("P23","Every element has one path that finds it, and only it",
 "The tree exposed to clients is exactly the declared structure: component instances, arrays, nested and extended types, blocks and parameters appear in declaration order under their declared or indexed names. The path reported for an element resolves to that element, listings agree with handle children, and any other path, redundant slashes apart, is refused with an error by every operation that takes a path.",
 ["configurations","inputs"],"Any structure built from the schema's constructs, any path text.",
 "Tests use fixed small structures and few wrong paths.",
 ["parameter/ElementLocator.cpp","parameter/PathNavigator.cpp","parameter/Element.cpp","parameter/TypeElement.cpp","parameter/ComponentInstance.cpp","parameter/ComponentType.cpp","parameter/ComponentLibrary.cpp"],
 [("path navigation","CPathNavigator / CElementLocator"),("instantiation","CTypeElement::instantiate / CComponentType")],
 ["handle information, listings, generated structure"])
p("P24","Mapping data reaches the subsystem object it was declared for",
 "Each element carrying an object mapping gets exactly one subsystem object of the declared kind, sized as the element, with the mapping context accumulated from its ancestors and every amendment placeholder replaced by the matching context value. Elements below an element that has an object get none of their own, elements without mapping data get none, and structures whose mapping is inconsistent (duplicate keys, context redefined by a descendant, missing required ancestor, object larger than allowed, parameter mapped without naming a known kind of object) are refused at start with an error.",
 ["configurations","inputs"],"Any structure with mappings at system, subsystem, component, instance and parameter level.",
 "Tests cover a handful of mapping strings.",
 ["parameter/Subsystem.cpp","parameter/FormattedSubsystemObject.cpp","parameter/MappingContext.cpp","parameter/MappingData.cpp","parameter/InstanceConfigurableElement.cpp","parameter/SubsystemObjectCreator.cpp"],
 [("mapping","CSubsystem::mapBegin/mapEnd/handleMappingContext/handleSubsystemObjectCreation"),("amendment","CFormattedSubsystemObject")],
 ["objects created in the monitoring plugin, their arguments and context","start errors"])
p("P25","A failed start is reported, harmless, and follows the failure policies",
 "Starting with missing, malformed or inconsistent files fails with an error naming the problem, leaves the instance not started (the C interface refuses every parameter access and application) and destroyable, and writes nothing to hardware. A missing subsystem plugin or an unreadable settings file fails the start exactly when the corresponding failure policy is on; otherwise the start succeeds with the subsystem virtual, or with no domain.",
 ["configurations","fault_sequences"],"Any fault in any of the files, any combination of policies.",
 "Tests break one thing at a time in one way.",
 [PM,"parameter/SystemClass.cpp","parameter/ParameterFrameworkConfiguration.cpp","xmlserializer/XmlMemoryDocSource.cpp","parameter/XmlFileIncluderElement.cpp"],
 [("load sequence","CParameterMgr::load and helpers"),("policies","setFailureOnMissingSubsystem / setFailureOnFailedSettingsLoad")],
 ["start status, error, log, subsequent calls"])
p("P26","Commands answer as the API does",
 "Every textual command validates its argument count and state, performs the same operation with the same outcome as the corresponding API call, and reports values, listings and statuses equal to what the API returns. Unknown commands, missing arguments and commands not allowed outside tuning mode are refused and change nothing.",
 ["inputs","histories"],"Every command, any argument list, any state.",
 "Functional tests drive few commands, mostly successful ones.",
 [PM,"parameter/CommandHandlerWrapper.cpp","remote-processor/RemoteCommandHandlerTemplate.h"],
 [("command table","gastRemoteCommandParserItems / process")],["status and output text of commands compared with API results and the model"])
p("P27","The settings generator produces exactly the settings described",
 "domainGenerator.py turns criteria, initial settings, single domain and EDD files into the settings they describe: every domain and configuration under its name prefixed by its groups, each configuration applicable exactly when the rules of its domain groups, domain, configuration groups, configuration types of its name and its own all hold, every parameter with the value written, whatever grouping in components spells its path, sequence aware domains in the order written. The output is one settings document equal to the one obtained by giving the equivalent commands to the framework; the exit status is the number of commands refused, plus one when elements belong to several domains. EDD texts breaking the syntax or setting different parameters in the configurations of one domain, malformed criteria, and configurations which cannot be started end with an error and no settings. The script made by PFWScriptGenerator.py from an EDD file has the same effect when run.",
 ["inputs","configurations"],"Any structure, criteria, set of EDD, settings and domain files, and any options.",
 "One reference document and four runs are tested.",
 ["tools/xmlGenerator/EddParser.py","tools/xmlGenerator/domainGenerator.py","tools/xmlGenerator/PFWScriptGenerator.py","tools/xmlGenerator/PfwBaseTranslator.py","tools/xmlGenerator/hostConfig.py","tools/xmlGenerator/domainGeneratorConnector.cpp"],
 [("EDD parsing and propagation","EddParser.Parser.parse / propagate"),("translation to commands","PfwScriptTranslator / translate"),("execution","XmlGenerator::parse")],
 ["standard output, standard error and exit status of the generator"])
p("P28","The Python bindings answer as the C++ interface does",
 "Every method the Python bindings expose (ParameterFramework, criterion types, criteria, loggers) can be called with the documented Python arguments and has the effect and the answer of the C++ method it stands for: the status first, then each value the method writes, and the error text, as Python bool, int, str or list of str; reading methods give the value in place of a reference. A logger written in Python receives the log lines of its instance, unchanged and in order. Arguments of a wrong type or number raise a Python error and change nothing, and no history of calls, releases of objects included, crashes the interpreter or touches freed memory.",
 ["histories","inputs"],"Any history of calls through the bindings on any structure.",
 "The tests call a handful of methods of the bindings, in one way each.",
 ["bindings/python/pfw.i","parameter/ParameterMgrFullConnector.cpp","parameter/include/ParameterMgrFullConnector.h"],
 [("type maps","pfw.i %apply / %typemap"),("loggers","director class ILogger")],["results of calls from Python compared with the C++ interface's for the same history, log lines, sanitizer reports"])
p("P29","The coverage report counts exactly what the framework logged",
 "From the settings and the log the framework writes, coverage.py reports each domain, configuration, criterion and criterion state with the number of its uses: configurations each time they were applied (domains and totals with the sum), criteria and their states at declaration, at each change and at each restart, rules each time they were found true when their configuration was applied, with the meaning, the lazy evaluation and the composed or empty values the framework knows, and every distinct combination of criteria a configuration was applied under, once, with its number. Percentages are the average of what is below, rounded; the raw report says what the XML one says. Logs contradicting the settings (unknown criterion, configuration or state, incoherent state, configuration applied while its rule is false, no criterion) are refused without report, unless the matching option asks to ignore it. aplog2coverage.sh gives the report of the lines selected in rotated logs, in chronological order.",
 ["inputs","histories"],"Any settings, any log written by the framework or edited, any options.",
 "The coverage tool has no test.",
 ["tools/coverage/coverage.py","tools/coverage/aplog2coverage.sh","parameter/ConfigurableDomain.cpp","parameter/SelectionCriterion.cpp","parameter/ParameterMgr.cpp"],
 [("reading the log","ParsePFWlog"),("evaluating rules","Rule.usedIfApplicable / Criterion.stateIs"),("writing","Element.exportToXML / dump"),("lines of the framework","CConfigurableDomain::apply, CSelectionCriterion::getFormattedDescription")],
 ["reports and exit status compared with counts kept beside the run"])
p("P30","A played scenario reaches the platform exactly as written",
 "The client simulator launches the platform with the configured file and port, declares every criterion of the criteria file with its kind and values in order, starts the framework, then performs the steps of the chosen scenarios in order: each step sets exactly the criteria it names, own or through the action it names, to the values written, then applies configurations once; scripts run once at their place, the next step waiting for the synchronous ones. Refused values, unknown actions and unknown scripts end the run with an error before anything later is sent. Menus offer every scenario, criterion value and script, perform the one chosen, and survive wrong choices. At the end, errors included, the platform it launched is stopped, its output is in the log file, and coverage was generated once when asked for.",
 ["inputs","histories"],"Any criteria, scenarios, actions, scripts and choices.",
 "The client simulator has no test.",
 ["tools/clientSimulator/pfClientSimulator.py","tools/clientSimulator/clientsimulator/scenario/Scenario.py","tools/clientSimulator/clientsimulator/testGenerator","tools/clientSimulator/clientsimulator/criterion","tools/clientSimulator/clientsimulator/userInteraction/UserInteractor.py"],
 [("scenario to actions","Scenario.play"),("actions to commands","TestLauncher.executeTestVector / executeScript"),("processes","SubprocessLoggerThread"),("menus","UserInteractor.getMenu")],
 ["commands received by stand-ins of the platform, its client and the scripts, in order; log file; exit status"])
p("P31","Selection criteria keep to what was declared",
 "A criterion accepts a value exactly when its name and its number are both new to it and, for an inclusive criterion, the number is one single bit; a refused value leaves it as it was and the reason is given. Names and numbers translate into each other as declared, a combination of names into the union of their bits, whatever their order and repetitions; unknown names and numbers are refused. The state set is the state read at once, and is shown as the names of its bits or of its value, or <none>, with every declared value, the same in the plain, CSV and XML listings and in the log. Each actual change is announced once, setting the same state again is not, and a change made before the previous ones were followed by an application of the configurations is warned about with their exact number.",
 ["inputs","histories"],"Any declarations, states and histories of changes and applications.",
 "Tests declare well-formed criteria with a few small values.",
 ["parameter/SelectionCriterionType.cpp","parameter/SelectionCriterion.cpp","parameter/SelectionCriteriaDefinition.cpp",PM],
 [("declaration","CSelectionCriterionType::addValuePair"),("translation","getNumericalValue / getLiteralValue / getFormattedState"),("changes","CSelectionCriterion::setCriterionState / resetModifiedStatus"),("listing","listCriteriaCommandProcess")],
 ["results of declarations and translations, listings, log lines"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
