TECH = {
 "P01": "random configurations against the delivered-lines model",
 "P02": "metamorphic relation over sources, encodings and line endings; save/re-parse round trip",
 "P03": "random indentation shapes against a reference tree builder; noise-insertion metamorphic relation",
 "P04": "all relations of all lines against one reference tree",
 "P05": "generated banners and macros with known extent inside random configurations",
 "P06": "rendering of random block structures, compared with the structure",
 "P07": "differential between typed and plain parsing; classifier table over generated commands",
 "P08": "enumeration oracle (re module over all lines)",
 "P09": "enumeration oracle over the reference tree; differential between forms",
 "P10": "enumeration oracle over the reference tree; differential between forms",
 "P11": "enumeration oracle over the reference tree",
 "P12": "enumeration of all chains in the reference tree",
 "P13": "re module as oracle over the lines in scope",
 "P14": "plain list edited alongside (reference model)",
 "P15": "plain list and reference tree edited alongside (reference model)",
 "P16": "re.sub over the plain list as reference model",
 "P17": "stateful model-based histories of edits against a list model and a fresh parse",
 "P18": "path-set model of both sides of the diff; reconstruction of the before side",
 "P19": "executing the produced commands on a configuration model",
 "P20": "differential against the standard ipaddress module",
 "P21": "differential against the standard ipaddress module",
 "P22": "set semantics of address ranges as oracle; order axioms",
 "P23": "integer arithmetic as oracle; inverse relations",
 "P24": "render/parse round trips from generated components; key-order oracle",
 "P25": "set model and stateful append/remove histories; compress/expand round trip",
 "P26": "explicit port sets as oracle",
 "P27": "encrypt/decrypt round trip with an independent encoder; corrupted inputs",
 "P28": "stanzas rendered from generated facts, compared with the facts",
 "P29": "route commands rendered from generated facts, compared with the facts",
 "P30": "execution model of VLAN commands",
 "P31": "standby commands rendered from generated groups, compared with the groups",
 "P32": "generated names and groups against a recursive expansion model",
 "P33": "access-list lines rendered from generated fields, compared with the fields",
 "P34": "stanzas rendered from generated facts, compared with the facts",
 "P35": "textual oracle and involution relation",
 "P36": "random query sequences with snapshots before and after; repeated-query differential",
 "P37": "generated malformed inputs against independent recognisers of the accepted languages",
 "P38": "differential against a plain Python list of the same line objects over random indices, slices and operation sequences",
 "P39": "random Junos block trees rendered from a model, facts predicted from the path in the tree",
 "P40": "commands rendered from generated fields, compared with the reported fields",
 "P41": "metamorphic relation: interleaved, threaded and other-process runs of random operation histories against isolated runs",
 "P42": "names rendered from generated components, compared with the components; round trips and total order against a key",
 "P43": "generated zones and failures served by a name server in the harness, compared with the reported responses",
 "P45": "prediction from generated commands and arguments; round trip of repeated words; differential of wrapped functions",
 "P47": "metamorphic property-based testing: the same session of queries and edits with and without debug output, log handlers and read-only mode",
 "P46": "model-based histories of log control against a reference model of handlers and levels",
 "P44": "enumeration oracle over the reference tree; differential against the methods",
}
