#!/usr/bin/env python3
"""Writes known-findings.txt: the findings below, and one fixed line per repair commit (property by commit)."""
import os
F = """7be2adc P17 setElementBytes wrote its converted bytes past the end of an empty vector
8e42abf P15 reading one array item from a configuration ignored the base offset of the stored area
b8d658f P12 an array index with trailing garbage or a sign was accepted
a1befed P12 a refused array value left the items preceding the wrong one written
4a27561 P18 undefined shift when formatting 32 bit values in hexadecimal
650dad9 P10 the raw value of a negative 32 bit enum could be read but not written back
22a91bb P08 text that is not a number was taken as a bit parameter value
3a12ab1 P18 a bit parameter with no size or an overflowing position was accepted and corrupted its block
8d1768d P18 a string set from raw bytes without terminator was read past its end
e0e1f89 P25 unsupported enum, fixed point and bit block sizes were accepted and overran their storage
5d6f91b P16 a single imported domain was not validated, applying it could abort
a8a4345 P14 a refused domain split was reported as a success
5648ebb P07 the default value of a floating point parameter could be outside its own range
7951722 P14 a refused element sequence was applied in part
beff7c8 P26 setSequenceAwareness without its second argument read past the arguments
e0ea9ed P13 array of strings access to a parameter without such a conversion aborted
f72a363 P24 mapping context lookup by name returned the key instead of its value
902a953 P02 a rule on a combination of inclusive values lost its value when shown or exported
4b21ea6 P02 malformed rules were accepted with a part of them ignored, or aborted
8ccd97d P09 undefined conversion of large user values by parameter adaptations
aeaf71f P18 overflow when registering the highest bit as a value of an inclusive criterion
991ecac P10 the raw hexadecimal output of floating point values could not be read back
68f4477 P19 malformed remote messages aborted the server or overran its buffers
37d1002 P19 a remote server not started or already stopped terminated the process on destruction
502dc9d P20 concurrent use of the logger corrupted its indentation
7c1da0f P20 data races on the tuning flags and on the criterion states
aff16cb P20 tuning mode could change between its check and the access it guards
4ab234c P20 domain edits, settings accesses and synchronizations raced with configuration application
b469422 P20 status, listing and dump commands read domains, configurations and values while another thread changed them (data race reported by the thread sanitizer)
454d3ba P20 a handle read the list of domains of its element without lock while another thread added or removed the element (data race, use of freed memory)
b8306ad P13 the typed read of an integer returned another value than the stored one
121a744 P13 the typed write of an integer was checked against a misinterpreted range
32e06fd P23 the description of an element was never available through its handle
213818e P26 the range of 8 bit integers was shown as characters
402c221 P22 using the C interface after a failed start aborted
6f296c0 P25 a component type containing itself through a block overflowed the stack at start
f274394 P25 a subsystem without library or instance definition crashed the start
05e944e P18 importing a domain without configurations element crashed
22cc369 P25 an included file holding something else than a subsystem was accepted
d61f255 P18 structure, domain or configuration elements found in places they cannot live in crashed instead of being refused
8c5de1e P24 an amendment following one without value (or a lone percent sign) was not replaced
b1d7b07 P02 a compound rule type other than All or Any was accepted in documents
bc82745 P25 an attribute of a document's root element which cannot be converted (ServerPort="x") threw out of the start, or of a single domain import
ffa8ad4 P17 writing the XML settings of an element always failed when schema validation was on
774add1 P19 an argument containing a NUL character was cut there
3ddf377 P19 stopping or destroying the remote server waited for ever while a client was connected
9990934 P19 a client which had finished sending lost the answers still being sent
2d0efa4 P18 a second start of a running instance used released domains
fea4c7d P18 an enumeration without size was refused without an error
c808b49 P18 the builders of a plugin listed twice leaked
9d049f7 P27 an absolute structure path got the directory of the configuration prefixed
864f18e P27 the generator failed when the optional --schemas-dir was left out
5dd011d P27 more than 31 values of an inclusive criterion overflowed a shift
7f8aec5 P27 rules on criteria named like ANY or ALL plus more were taken for operators and failed
c6a3871 P27 the elements of a sequence aware configuration were not in the order written when components were used
1d33758 P15 a configuration value without literal read as the text read just before (the configuration's, under the one applied)
6a96189 P28 getSequenceAwareness, restoreConfiguration, getParameterMapping, getNumericalValue and getLiteralValue could not be called from Python
f2d93b7 P29 no configuration application was counted (the framework quotes names with apostrophes)
e1882e0 P29 rules with composed or empty values were misjudged, sound logs refused
aca1155 P29 aplog2coverage.sh looped on --regexp and refused --output
26de7f6 P30 the coverage generation asked for was killed as soon as launched
d492c11 P30 a choice beyond the end of a menu ended the simulator
a8900bd P30 removing the last value of an inclusive criterion ended the simulator
a943354 P30 values contained in the name of the current one could not be chosen
938bd66 P30 a step naming no criterion reset all of them
7033107 P30 an error in a scenario left the simulator and the platform running for ever
bedf077 P27 PFWScriptGenerator.py failed on every EDD file
367ab55 P16 the document leaked when an export could not be written
"""
K = [("P16", "enum-raw-negative", "a domain document exported in raw value space with an enumeration holding a negative value of a size below 32 bits (EnumParameter Size=16, value -1, exported as 0xFFFF) is refused when imported again: enumeration settings carry no value space and are read in real space"),
     ("P16", "enum-array-space", "a domain document exported with an array of enumerations one literal of which contains a space (ArrayLength=2, literal 'b c') is refused when imported again (too many values provided)")]
out = ["# Genuine defects of intel/parameter-framework met by these checks (tools/gen_known.py).",
       "# finding: reported as KNOWN-FINDING by a deterministic probe (mon/probes.py), not repaired; fixed: repaired by a fix: commit, suppresses nothing."]
out += ["finding: property=%s key=%s what=%s" % k for k in K]
out += ["fixed: property=%s %s %s" % (l.split(" ", 2)[1], l.split(" ", 2)[0], l.split(" ", 2)[2]) for l in F.strip().splitlines()]
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.txt"), "w").write("\n".join(out) + "\n")
