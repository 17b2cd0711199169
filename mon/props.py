"""What each check runs, which observations decide its property, and what its evidence says."""
from . import engine as E
from .structgen import Gen

W = E.weights
RULE = ("Histories of operations drawn at random (VERIF_SEED) on randomly generated structures, criteria and domain files, executed on the real "
        "framework built with ASan+UBSan and on an executable model written from the specification; after every operation the monitors compare "
        "status, error text, all stored bytes, every hardware event recorded by a monitoring subsystem plugin and, after edits, the exported domains.")
CRASH = ["died:*", "hang:*"]
ASSUME = ["the model in mon/ (values, rules, domains, synchronisation) states the documented semantics",
          "allocations are bounded: array lengths and string sizes stay below a few thousand",
          "one thread drives the instance unless the check says otherwise"]

def hist(name, n, nops, **prof):
    return {"name": name, "n": n, "fn": E.history, "args": {"nops": nops, "prof": prof}}

SMALL = dict(nsub=None, maxleaves=14)
PROPS = {}
from .probes import PROBES

def prop(pid, key, tags, work, **kw):
    PROPS[pid] = dict(kw, key=key, tags=tags + CRASH, work=work, rule=kw.get("rule", RULE), assumptions=kw.get("assumptions", ASSUME))

EDIT_OPS = ["createDomain", "deleteDomain", "deleteAllDomains", "renameDomain", "seqaware", "createConf", "deleteConf", "renameConf",
            "saveConf", "restoreConf", "addElem", "removeElem", "split", "setElemSeq", "setRule", "clearRule"]

prop("P01", ["configurations applied", "applications"],
     ["apply:*", "start:values*", "start:hw*", "tuning:values*", "tuning:hw*", "*:last@*", "setcrit:*", "final:*"],
     [hist("apply", 2600, 70, weights=W(1, setcrit=14, apply=14, set=3, hset=3, setbytes=2, setRule=4, query=4, restoreConf=3, tuning=4,
                                       deleteConf=2, createConf=2, domtrip=.3, domone=.3, badimport=.2, getxml=.2, setxml=.2, xmltrip=.2),
           initial=.9, auto_tuning=.2),
      hist("mixed", 800, 90, weights=W(1, setcrit=5, apply=6), initial=.8)])

prop("P03", ["applications while tuning", "edits refused outside tuning mode", "writes refused outside tuning mode", "tuning mode left"],
     ["*:gate@*", "*:error@r", "hset:status@t", "setcrit:*", "apply:*@t", "tuning:*", "*:modes@*",
      "set:values@r", "set:hw*@r", "hset:values@t", "hset:hw*@t", "setxml:values@r", "saveConf:*@r", "restoreConf:*@r", "createDomain:*@r", "deleteDomain:*@r",
      "deleteAllDomains:*@r", "createConf:*@r", "deleteConf:*@r", "addElem:*@r", "removeElem:*@r", "split:*@r", "setElemSeq:*@r",
      "seqaware:*@r", "domtrip:*@r", "domone:*@r", "badimport:*@r", "partimport:*@r", "*:criteria@*"],
     [hist("gates", 2600, 70, weights=W(2, setcrit=10, apply=10, tuning=6, set=6), initial=.8, auto_tuning=.12, deep=.2, prohibited=.06),
      hist("sessions", 900, 90, weights=W(1, setcrit=8, apply=8, tuning=10, set=8, query=3), initial=.9, auto_tuning=.5)])

prop("P04", ["hardware writes observed"],
     ["*:hw-missing@*", "*:hw-extra@*", "*:hw-bytes@*", "sync:*", "autosync:*"],
     [hist("sync", 2600, 70, weights=W(1, set=10, hset=5, setbytes=5, setxml=4, xmltrip=3, restoreConf=5, setc=4, setcrit=5, apply=6, autosync=6, sync=5),
           mixes=[dict(initial=.3, auto_tuning=.6), dict(initial=.9, auto_tuning=.3)]),
      hist("mixed", 900, 90, weights=W(1))])

prop("P05", ["configurations applied", "configurations restored", "element sequences set"],
     ["apply:*", "tuning:hw*", "tuning:values*", "start:hw*", "start:values*", "restoreConf:*", "*:hw-order@*", "*:sequence@*", "setElemSeq:*", "seqaware:*", "split:hw*", "query:listing*"],
     [hist("sequences", 2800, 70, weights=W(.6, setcrit=14, apply=14, setElemSeq=8, seqaware=5, restoreConf=6, addElem=4, split=3, removeElem=2,
                                           tuning=4, domtrip=.5, fault=1.5), initial=.95, seqaware=.7, auto_tuning=.35),
      hist("mixed", 500, 90, weights=W(1, setElemSeq=3), seqaware=.7)])

prop("P06", ["resynchronisation requests", "refusing objects toggled", "subsystem deaths and revivals"],
     ["*:unreported@*", "apply:*", "tuning:*", "*:hw-*", "sync:*", "autosync:*", "set:*", "setbytes:*", "setxml:*", "hset:status*", "hset:values*", "restoreConf:*", "setc:status*", "final:*", "start:hw*"],
     [hist("faults", 2800, 70, weights=W(.6, fault=14, setcrit=8, apply=10, set=8, hset=4, setbytes=4, setxml=2, restoreConf=5, sync=3, autosync=3, setc=2, tuning=4),
           mixes=[dict(initial=.9, auto_tuning=.3), dict(initial=.9, auto_tuning=.6), dict(nsub=4, initial=.8)]),
      hist("mixed", 500, 90, weights=W(1, fault=4))])

prop("P07", ["objects covered by configurations at start", "starts", "objects read at start"],
     ["start:*", "setup:*"],
     [hist("starts", 6000, 3, weights=W(0, getbytes=1, query=1), mixes=[dict(initial=.9), dict(initial=.5), dict(initial=.9, maxleaves=90, nsub=4)])])

VALUES = dict(set=14, get=6, space=3, hget=2, hset=3, setc=2, getc=2, tuning=1)
NODOM = dict(initial=.3, auto_tuning=.9)
prop("P08", ["values accepted", "values refused"],
     ["set:*", "get:*", "setc:*", "getc:*", "final:values*", "hset:values*", "hset:status*"],
     [hist("values", 2600, 120, weights=W(.15, **VALUES), **NODOM),
      hist("bits", 500, 100, weights=W(.1, **VALUES), gen=dict(kinds=["bool", "enum"], arrays=.1), **NODOM),
      hist("configuration values", 600, 90, weights=W(.4, setc=12, getc=8, set=4, addElem=3, createConf=3, tuning=2, space=3), initial=.9, auto_tuning=.7)])

prop("P09", ["typed writes accepted", "typed writes refused (value or type)", "typed reads"],
     ["hset:*", "hget:*", "set:*", "get:*"],
     [hist("adaptations", 3200, 140, weights=W(.02, hset=16, hget=8, set=5, get=3, setbytes=1, tuning=.7, space=.5),
           gen=dict(kinds=["lin", "lin", "log", "log", "int"], arrays=.3), initial=.0, auto_tuning=.15),
      hist("mixed", 300, 80, weights=W(.5, hset=8, hget=4))])

prop("P10", ["values read", "settings round trips", "values accepted"],
     ["get:*", "set:*", "space:*", "getxml:*", "setxml:*", "xmltrip:*", "hget:*", "getc:*", "setc:*"],
     [hist("spaces", 2800, 110, weights=W(.15, space=10, get=12, set=12, getxml=2, setxml=2, xmltrip=3, getc=1, setc=1, hget=1, tuning=1), **NODOM),
      hist("spaces of numbers", 700, 110, weights=W(.1, space=10, get=12, set=12, xmltrip=2, tuning=.5),
           gen=dict(kinds=["fixed", "float", "enum", "int", "log", "lin"], arrays=.4), **NODOM)])

prop("P11", ["byte settings read", "byte settings written"],
     ["setbytes:*", "getbytes:*", "set:*", "get:*", "hset:*", "hget:*", "setxml:*", "getxml:*", "xmltrip:*", "final:*", "start:values*", "*:values@*"],
     [hist("layout", 2800, 90, weights=W(.3, setbytes=9, getbytes=9, set=9, get=6, hset=4, hget=3, setxml=3, getxml=3, space=2, tuning=1),
           mixes=[dict(initial=.2), dict(initial=.2, maxleaves=90), dict(gen=dict(kinds=["bool"], arrays=.1)), dict(initial=.7)], auto_tuning=.8),
      hist("mixed", 500, 90, weights=W(1, setbytes=3, getbytes=3))])

prop("P12", ["values accepted", "values refused", "bad paths refused", "typed writes accepted"],
     ["set:*", "get:*", "hset:*", "hget:*", "setc:*", "getc:*", "getxml:*", "setxml:*"],
     [hist("arrays", 3000, 120, weights=W(.1, set=16, get=8, hset=6, hget=3, space=2, setc=3, getc=3, getxml=1, setxml=1, addElem=.5, createConf=.5, tuning=1),
           gen=dict(arrays=.9), mixes=[NODOM, NODOM, dict(initial=.9, auto_tuning=.7)], )])

prop("P13", ["typed writes accepted", "typed writes refused (value or type)", "typed writes refused (owner or shape)", "typed reads", "typed writes ignored while tuning"],
     ["hset:*", "hget:*", "query:rogue*"],
     [hist("handles", 2800, 100, weights=W(.2, hset=20, hget=10, tuning=2, addElem=2, removeElem=2, createDomain=1, deleteDomain=.6, space=2, apply=1, setcrit=1, query=2, autosync=1),
           mixes=[dict(initial=.0, auto_tuning=.1), dict(initial=.6, auto_tuning=.3)]),
      hist("mixed", 600, 90, weights=W(.7, hset=4, hget=3))])

prop("P14", ["domain edits", "elements added", "elements removed", "elements split", "element sequences set", "listings compared"],
     [o + ":*" for o in EDIT_OPS] + ["query:*", "*:listing@*", "*:elements@*", "*:rule@*", "*:seqaware@*", "*:settings@*", "*:sequence@*", "final:*"],
     [hist("edits", 2400, 70, weights=W(.3, **dict({o: 5 for o in EDIT_OPS}, deleteAllDomains=.5, deleteDomain=2, deleteConf=2.5, createDomain=4, addElem=9, createConf=8, query=14, tuning=1, setcrit=1, apply=1)),
           mixes=[dict(initial=.8), dict(initial=.2)], auto_tuning=.85),
      hist("mixed", 700, 90, weights=W(1, query=5))])

prop("P15", ["configurations saved", "configurations restored", "configuration values written", "configuration values read", "elements added", "elements split", "descendants merged"],
     ["*:confvalues@*", "getc:*", "setc:*", "saveConf:*", "restoreConf:*", "addElem:*", "split:*", "removeElem:*", "createConf:*", "deleteConf:*", "partimport:*", "apply:values*", "apply:hw-bytes*", "*:settings@*", "final:*"],
     [hist("configurations", 2600, 70, weights=W(.3, addElem=12, createConf=9, saveConf=9, restoreConf=8, setc=7, getc=6, split=5, removeElem=4, set=8, setbytes=5, setcrit=3, apply=3, tuning=1.5, deleteConf=1, createDomain=2, domtrip=.3, domone=.3, partimport=2.5),
           mixes=[dict(initial=.8), dict(initial=.3)], auto_tuning=.85, deep=.3),
      hist("mixed", 600, 90, weights=W(1, saveConf=3, restoreConf=3, setc=3), deep=.2)])

prop("P16", ["domain documents round tripped", "single domains round tripped", "corrupted documents refused"],
     ["domtrip:*", "domone:*", "badimport:*", "partimport:*"],
     [hist("documents", 2400, 60, weights=W(.4, domtrip=12, domone=9, badimport=7, partimport=9, addElem=6, createConf=5, createDomain=2, setRule=4, set=4, setbytes=3, saveConf=3, setElemSeq=3, seqaware=1.5, split=1.5, setcrit=1, apply=1, tuning=1.2),
           mixes=[dict(initial=.9), dict(initial=.3), dict(initial=.9, maxleaves=60)], auto_tuning=.85)])

prop("P17", ["settings round trips", "XML settings written", "XML settings read", "byte settings written", "byte settings read", "wrong settings refused"],
     ["getxml:*", "setxml:*", "xmltrip:*", "setbytes:*", "getbytes:*"],
     [hist("settings", 2600, 80, weights=W(.2, getxml=6, setxml=9, xmltrip=9, setbytes=6, getbytes=5, set=4, space=3, autosync=1.5, tuning=1.5, fault=.5),
           mixes=[dict(initial=.2), dict(initial=.2, maxleaves=90), dict(initial=.8)], auto_tuning=.8),
      hist("settings with schema validation on", 300, 50, weights=W(0, getxml=6, setxml=9, xmltrip=9, setbytes=3, getbytes=3, set=4, space=3, autosync=1, tuning=1), validate=True, initial=0, auto_tuning=.8)])

prop("P26", ["operations"],
     ["[a-z]*:*"],
     [{"name": "commands", "n": 2200, "fn": E.commands_vs_api, "args": {"nops": 80, "prof": dict(weights=W(1, browse=8, query=6, cmdargs=4, badmode=2),
           mixes=[dict(initial=.8), dict(initial=.3, auto_tuning=.8)])}},
      hist("answers", 1000, 70, weights=W(.4, browse=14, query=14, cmdargs=6, badmode=3, setcrit=2, apply=2), route="cmd", initial=.8)])
PROPS["P26"]["tags"] = ["query:*", "browse:*", "cmdargs:*", "badmode:*"] + [o + ":*" for o in E.ALL]

from . import special as S
prop("P02", ["rule evaluations", "rules set", "malformed rules refused", "renderings read back"],
     ["setRule:*", "clearRule:*", "*:rule@*", "query:last*", "domtrip:rule*", "evaluate*:*", "render:*", "malformed:*", "document:*", "rules:*", "apply:values*", "start:values*", "badimport:status*"],
     [{"name": "rules", "n": 1000, "fn": S.rules},
      hist("rule histories", 1500, 60, weights=W(.3, setRule=10, clearRule=1.5, setcrit=10, apply=6, query=8, domtrip=2, domone=2, createConf=4, createDomain=2, tuning=1.5, badimport=1),
           initial=.8, auto_tuning=.5)])

from . import capi as C
prop("P22", ["starts", "failed starts", "writes accepted", "applications"],
     ["*:*", "leak"],
     [{"name": "C interface", "n": 1200, "fn": C.capi}],
     rule="Histories of C interface calls on one to three handles used in turn (valid and invalid starts, criteria, bindings, reads and writes, use before start and "
          "after a failed start, second starts, destruction in any order), executed on the real library under ASan+UBSan+LSan; after every call the monitors compare outcome, "
          "last error, values, criterion states, log callbacks and every hardware event with the executable model.")

from . import conc as K
prop("P20", ["overlapping calls", "rounds explained", "rounds with overlapping calls", "hardware writes"],
     ["concurrent:*", "start:*", "leak"],
     [{"name": "concurrent clients", "n": 7000, "fn": K.concurrent}], variants=["tsan"],
     technique="thread sanitizer on concurrent clients of one instance, with an offline linearizability checker over the recorded calls and hardware writes",
     rule="2 to 5 threads run random requests (text values, typed handles, raw bytes, settings documents, tuning mode, autosync, synchronization, configuration save, restore and edit, rules, "
          "element order, domain creation, renaming and deletion, exports, criteria changes and application) on one instance through handles, the C++ interface and commands, with random pauses and "
          "slow hardware; every call is recorded with its invocation and return, every hardware write with its bytes. A search decides whether some sequential order of the calls, compatible with real "
          "time, explains all answers, the order and contents of all hardware writes and the final state; monitors in the plugin watch for two threads in the callbacks at once and for torn arrays.")

prop("P21", ["interleaved steps", "calls overlapping those of another instance"],
     ["interleaved:*", "parallel:*", "leak"],
     [{"name": "interleaved", "n": 900, "fn": E.interleaved, "args": {"nops": 36, "prof": dict(weights=W(1, setcrit=4, apply=4, set=4), initial=.7, maxleaves=20)}},
      {"name": "threads", "n": 600, "fn": K.parallel, "variant": "tsan", "args": {"nops": 30, "prof": dict(weights=W(1, setcrit=4, apply=4, set=4), initial=.7, maxleaves=16)}}], variants=["asan", "tsan"],
     technique="address and undefined behaviour sanitizers on interleaved instances, thread sanitizer on instances driven by threads of their own, against the same histories run alone",
     rule=RULE + " Several instances live in one process: one workload drives 2 to 5 of them alternately, each against its own model, watching that the others log nothing, and destroys some while the "
          "others go on; the other one records the histories of 2 to 4 instances run one after the other and then runs them at once, each on its own thread under TSan, with slowed hardware and random "
          "pauses: every answer and every hardware write must be what the instance answered alone.")

from . import fuzz as Z
prop("P18", ["commands refused", "calls refused", "handle calls refused", "damaged starts refused", "damaged starts accepted"],
     ["fuzz:*", "setup:*", "leak"],
     [{"name": "calls", "n": 2000, "fn": Z.calls, "args": {}},
      {"name": "files", "n": 5000, "fn": Z.files, "args": {}}],
     technique="address, leak and undefined behaviour sanitizers and assertions on the whole framework under structure-aware fuzzing of its calls, documents and files",
     rule="Histories of calls with hostile arguments (every command, C++ call and handle operation; damaged names, paths, values, rules, byte lists, settings and domain documents, numbers at the edge of every type, "
          "text which is no UTF-8, missing and extra arguments, any criterion state) on sound random structures, and starts from damaged configuration, structure, included and domain files (attributes, elements, text, nesting, "
          "prologs, entities, bytes), followed by calls when they start. The process must survive without sanitizer report, assertion, exception or leak; what is refused is refused with an error; what is stored stays readable.",
     assumptions=["array lengths, string sizes and the nesting of elements and rules are bounded: memory and stack are assumed sufficient",
                  "calls reserved to a started instance (applyConfigurations) are not made on one which failed to start",
                  "export destinations stay in the scratch directory"])

from . import remote as Q
prop("P19", ["requests answered", "sessions pipelined", "malformed checksum", "stopped with clients connected", "hostile connections"],
     ["remote*:*", "*:service@*", "leak"] + PROPS["P26"]["tags"],
     [{"name": "server", "n": 3000, "fn": Q.server, "args": {}},
      {"name": "server threads", "n": 1000, "fn": Q.server, "variant": "tsan", "args": {}},
      {"name": "framework", "n": 1800, "fn": Q.framework, "args": {"nops": 50, "prof": dict(weights=W(1, browse=4, query=4, cmdargs=4, badmode=1), initial=.7)}}],
     variants=["asan", "tsan"],
     technique="address, undefined behaviour and thread sanitizers on the remote service under well formed, malformed and vanishing clients, with an exactly-once checker over the commands executed and the executable model behind the framework's own service",
     rule="Two kinds of services on the loopback network. A recording service executes nothing but notes each command with its arguments: clients of all manners (one request at a time, pipelined, byte by byte, "
          "half closed, several at once, the command line client, abandoning answers, resetting connections, and 13 kinds of malformed messages) are answered or cut as they deserve, each request must have been "
          "executed once, in order, with the arguments sent, and the service must end with clients connected, restart, and refuse a port in use. The framework's own service: histories whose commands arrive through "
          "the socket with hostile connections in between, against the executable model; a history that differs is repeated without the socket to decide whose fault it is.")

from . import faults as F
prop("P25", ["starts refused", "started without the faulty part"],
     ["start:*", "retry:*", "destroy:*", "C:*", "setup:*", "leak"],
     [{"name": "faults", "n": 3000, "fn": F.faults}],
     rule="Random structures, criteria, domain files and failure policies with faults put in the configuration, structure, included and settings files or in the plugins (files absent, "
          "directories, truncated, no XML, wrong roots and names, unknown, misplaced or recursive elements, attributes out of their domain, inconsistent settings): the outcome of the start, its error, "
          "the hardware events, the answers of the broken instance and its destruction are compared with the policies; instances which start without the faulty part are driven through a history "
          "against the executable model with the subsystem virtual, or without domain.")

from . import lab as L
prop("P23", ["elements", "paths resolved", "other paths refused"],
     ["walk:*", "render:*", "resolve:*", "others:*", "start:status*", "start:objects*", "browse:*"],
     [{"name": "trees", "n": 900, "fn": L.tree},
      hist("browsing", 500, 60, weights=W(.1, browse=20, query=3, set=2), initial=.5)],
     rule="Random structures (nested and extended types, arrays of components and blocks, equal and prefix names in different branches, descriptions) spelled in random "
          "file layouts (inline, SubsystemInclude, XInclude, nested type sets, comments); the tree reached through handles, listings, structure documents, dumps, sizes, bytes, settings "
          "and values is compared with the declared one, and texts that are no path are given to every operation taking one, after which nothing may have changed.")

prop("P24", ["objects", "inconsistent mappings refused"],
     ["start:*", "lookup:*", "reach:*", "destroy:*"],
     [{"name": "mappings", "n": 3000, "fn": L.mapping}],
     rule="Random structures carrying mapping data on subsystems, component types, extended types, instances, blocks, arrays and parameters, with amendments, quotes, unknown keys "
          "and deliberate inconsistencies; the objects a monitoring plugin is asked to create (kind, size, raw and amended value, context), the mapping shown to clients, and the "
          "objects reached by writes are compared with a model of the mapping rules; inconsistent ones must fail the start.")

from . import edd as D
prop("P27", ["documents compared", "scripts run"] + ["refused: " + x for x in ("criteria file", "criterion value twice", "too many inclusive values", "structure", "configuration", "missing file", "parameters differ")]
     + ["refused: syntax " + x for x in D.SYNTAX],
     ["gen:*", "generator:*", "leak"],
     [{"name": "generator", "n": 3600, "fn": D.generate}],
     technique="address, leak and undefined behaviour sanitizers on the connector, and a differential oracle: the generator run on random descriptions against the framework given the commands these describe",
     rule="Random structures, criteria and abstract settings (domain groups, configuration groups and types, nested rules, components, sequence aware domains, values valid and not, names clashing) spelled as EDD "
          "files in random manners (order, spacing, comments, keywords, grouping), with initial settings and single domain files exported by the framework, options drawn at random; the tool of the tree under test "
          "runs under Jython with the instrumented connector. What it prints is compared, up to equivalent rules and unordered lists, with the export of an instance given the described commands one by one, its exit status with "
          "the number of commands refused there, and broken inputs must be refused without output.",
     assumptions=["Jython 2.7 stands for Python 2, which the tool asks for", "names hold no equals sign, which EDD cannot express", "configuration types precede the configurations they concern"])

from . import pybind as Y
prop("P28", ["answers of the bindings compared"],
     ["python:*"],
     [{"name": "python", "n": 1800, "fn": Y.history, "args": {"nops": 60, "prof": dict(weights=W(2, query=.5, browse=.3, cmdargs=.3, badmode=.5, hget=.3, getxml=.3, getbytes=.3), route="api", initial=.7)}}],
     targets=["all", "pyhost"],
     technique="address and undefined behaviour sanitizers on the Python bindings, driven in lockstep with the C++ interface by the same histories",
     rule="Random histories (criteria, starts, modes, values, configurations, domains, rules, imports and exports) on random structures are executed twice at the same time: through the generated "
          "bindings in a Python interpreter, the whole stack instrumented, and through the C++ interface in another process. After every request the monitors compare the two answers and require the documented "
          "shape and types; log lines received by a logger written in Python are compared with those of a C++ logger, hardware events with each other. Wrong arguments are mixed in and must raise. "
          "Values and literals of criterion types, unknown criteria, instances released before or after their start are part of the histories.",
     assumptions=["loggers raise nothing", "texts are UTF-8", "leaks within the interpreter are not judged"])

from . import cov as V
prop("P29", ["reports compared"],
     ["coverage:*"],
     [{"name": "logs of the framework", "n": 1400, "fn": V.real},
      {"name": "logs made up", "n": 1800, "fn": V.synthetic}],
     technique="offline checker of the log: reports on recorded and synthetic event logs compared with counts kept beside the run by an independent model",
     rule="Random criteria, domains and rules. In half of the cases an instrumented instance is started and driven (criteria, applications, tuning mode), its log recorded, and the settings written or exported by it; in the "
          "others the log is made up: restarts, noise, prefixes, and inconsistencies of every kind. The tool of the tree under test reads it with random options, directly or through its shell script (rotated logs, lines of other "
          "programs); every count and percentage of the report is compared with those of the model fed with the events of the run, which the log was not read for.",
     assumptions=["names hold no apostrophe and no comma", "alternatives of a rule may be evaluated in the order written or single criteria first", "an XSLT processor is not installed: a stand-in copies the XML report"])

from . import crit as Q
prop("P31", ["histories", "values accepted", "values refused", "changes", "messages"],
     ["declare:*", "create:*", "setcrit:*", "getcrit:*", "critlit:*", "critvals:*", "listCriteria:*", "start:*", "log:*", "tuning:*", "apply:*", "leak"],
     [{"name": "criteria", "n": 12000, "fn": Q.criteria}],
     technique="runtime monitors: every answer about criteria and the recorded sequence of log messages compared with a model of what was declared and set, under AddressSanitizer and UndefinedBehaviorSanitizer",
     rule="Random kinds of criteria, shared or not, offered sound and unsound values (taken names and numbers, several bits, zero, the sign bit), before and after creation and start; random states, combined, undeclared or extreme; "
          "translations both ways, listings in the three formats, applications and tuning mode in between. The announcements and warnings logged are compared in order with the actual changes.",
     assumptions=["texts which name no value of a criterion may translate into anything beside the failure", "values are listed in any order"])

from . import sim as U
prop("P30", ["scenarios played", "interactive sessions"],
     ["simulator:*"],
     [{"name": "scenarios", "n": 160, "fn": U.scenarios},
      {"name": "interactive", "n": 80, "fn": U.interactive}],
     technique="runtime monitors recording what stand-ins of the platform, its client, the scripts and the coverage tool receive, compared in order with the scenarios",
     rule="Random test directories (criteria, scenarios with own and gathered actions, scripts synchronous or not, options, relative and absolute paths, refused values, unknown actions) played from the command line, through the "
          "scenario menu, and interactively through menus chosen at random, wrong choices included. The stand-ins note every launch, argument list, beginning and end; the checker compares order, arguments and counts, "
          "the log file, the exit status, and that nothing is left running.",
     assumptions=["names, values and paths are words the shell leaves as they are", "an action and the step using it name different criteria"])
