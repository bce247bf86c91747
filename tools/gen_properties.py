#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run from /verif; not used by any check)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mechanism,observe_at,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mechanism],"observe_at":observe_at,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"where":MO} for n in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
LIB="src/lib.rs"; TOK="src/tokenizer/mod.rs"; TO="src/tokenizer/obj.rs"; TM="src/tokenizer/mtl.rs"; MO="src/model.rs"; MA="src/material.rs"; MC="src/macros.rs"
API=["return value of load_obj / load_mtl"]

p("C01","Every input gets an answer",
"For every UTF-8 string, loading it as OBJ or as MTL returns either a value or an error: it never panics, aborts, overflows arithmetic or the stack, exhausts memory, or fails to finish. Formatting a returned error, or cloning, comparing, printing and dropping a returned value, never fails either.",
["inputs"],"all strings: valid files, mutated files, token soup, multibyte text, control characters, very long tokens, extreme numbers",
"The tests load about thirty well-formed snippets; the quantifier is over all strings, including ones that put multibyte characters where a keyword could start, and very deep repetition.",
[LIB,TOK,TO,TM,MO,MA,MC],[("tokenizer alternatives always consume or stop",TO+" parse_obj, "+TM+" parse_mtl"),("numeric conversion fallbacks",TOK+" parse_digit/parse_float"),("errors are propagated as Result",LIB+" load_obj/load_mtl")],API+["panic hook","process exit status","CPU clock"])
p("C02","Loading is a pure function of the text",
"The result of loading depends only on the text passed in: loading the same text again - after any history of other loads including failing ones, concurrently from any number of threads, in another process with another environment, working directory or hash seed, from memory at any address, with or without a logger installed and enabled - gives an equal result. Map iteration order is not part of the result.",
["inputs","histories","schedules","configurations"],"all texts, all load histories, all thread interleavings, all process environments",
"Each test loads one text once in one process; nothing compares two loads, let alone loads in different threads, histories or environments.",
[LIB,TO,TM,MO,MA],[("no shared or static state; each load builds its own tokens and result",LIB+" load_obj/load_mtl")],API+["digests of results across threads, histories and child processes"])
p("C03","Loading performs no input or output",
"While loading, the library performs no I/O and touches nothing outside its own memory: it never opens, stats, reads or writes a file (even when names in the text refer to existing files), never writes to standard output or standard error, and never starts processes, threads or network connections.",
["inputs"],"all texts, in particular ones whose material libraries, texture maps, shadow and trace objects name files that exist",
"The tests name files but never watch what the process does; absence of a system call on every path is not something an assertion on a result can see.",
[LIB,MO,MA],[("file names are only copied into the result",MO+" parse, "+MA+" parse"),("diagnostics only through the log facade","log::error! call sites")],["system calls made between call and return of load_obj / load_mtl"])
p("C04","Cost grows linearly with the size of the file",
"The work done (instructions executed and bytes allocated) to load a text grows at most in proportion to the length of the text plus the size of the result (a statement that applies to several groups counts once for each, with the group's name), whatever the text consists of: many statements, one huge statement, many groups or materials, long comments, long whitespace, long names, long numbers, or an error at the end. Peak memory held is proportional in the same sense.",
["inputs"],"all families of growing inputs",
"Every test input is under 2 kB; super-linear cost only shows when the same shape is loaded at several sizes and the costs are compared.",
[TOK,MC,MO,MA],[("token stream slicing",TOK+" TokenSet"),("tokenizer alternatives do not rescan",TO+", "+TM)],["instruction counts (cachegrind)","counting global allocator"])
p("C05","Memory safe, data-race free and leak free",
"Loading any text executes no undefined behaviour: no out-of-bounds, misaligned, uninitialised or use-after-free access and no data race, also when many threads load at once and share the text and the results. Everything allocated during a load is released once its result or error is dropped, and the result never borrows from or changes with the input buffer.",
["inputs","schedules"],"all texts and all thread interleavings",
"The tests run uninstrumented, single loads on well-formed ASCII; undefined behaviour and leaks are invisible to their assertions.",
[LIB,TOK,TO,TM,MO,MA,MC],[("safe Rust throughout; owned results",LIB+", "+MO+", "+MA)],["Miri and AddressSanitizer reports","live-allocation balance of a counting allocator"])
p("C06","Nothing is dropped silently",
"A text in which every statement is a supported one, well formed, loads; a load succeeds only then, with every statement accounted for in the result. If any statement is unsupported (for example merging groups, free-form curves or PBR extensions), malformed (missing, surplus or wrongly typed arguments, an on/off argument that is neither on nor off, a second file name for a texture map), or is not a statement at all, at whatever position, the load returns an error (model-kind for OBJ, material-kind for MTL) instead of a partial or altered result. Line breaks count as blanks here (they only end names, comments and bare g statements), and one or two slashes after the last index of a reference count as absent indices.",
["inputs"],"every otherwise valid file with an offending line at any position; every malformed variant of every statement",
"The tests never put a bad statement into a file; whether what precedes and follows it is silently lost depends on its kind and position.",
[LIB,MO,MA,TO,TM],[("the whole token stream must be consumed",MO+" parse, "+MA+" parse"),("error kinds",LIB+" ObjError")],API)
p("C07","Vertex data is complete, in order and exact",
"Loading a text of supported OBJ statements succeeds, and the positions, normals and texture coordinates are then exactly those of the v, vn and vt statements in file order: one entry per statement, each component in its own field, and an optional component (w of v; v and w of vt) present exactly when it was written. No other statement adds, removes, reorders or changes them.",
["inputs"],"all files of supported statements, any number and interleaving of statements, integer or decimal components, comments anywhere",
"The tests check one fixed cube and single statements; order, count and component placement over arbitrary interleavings, sizes and integer/decimal mixes are unbounded.",
[MO,TO],[("one push per vertex statement",MO+" parse"),("component order",MO+" parse_vertex, parse_vertex_normal, parse_vertex_texture")],API)
p("C08","Numbers are read exactly",
"Every number written as an optionally signed decimal - an integer, a decimal with digits before and/or after the point, with or without an e/E exponent, of any length and magnitude - is loaded as the 32-bit float nearest to the written value (infinite beyond the float range), wherever a real number is accepted in OBJ or MTL. Where an integer is required (indices, smoothing group, level of detail, illumination model, texture resolution) the written integer is loaded exactly, and one outside the range of that field or of 32-bit signed integers is an error, never a different number.",
["inputs"],"all decimal literals, in every numeric position of every statement",
"Nine literals are tested; rounding, overflow, long digit strings, exponent forms and signs are unbounded.",
[TOK,LIB,MO,MA],[("digit assembly and conversion",TOK+" parse_digit, parse_float"),("token to field conversion",LIB+" get_token_float, get_token_int, get_opt_token_float_opt")],API)
p("C09","Element references are preserved exactly",
"Every f, l and p statement yields one element with exactly as many references as were written, in the written order, each with the written vertex, texture and normal index in its own slot, and a texture or normal slot is present exactly when it was written (v/, v// and v/vt/ leave out what follows the slash). A negative index, which counts back from the latest v, vt or vn read before the element, is recorded as the index of the entry it means, or as written if it reaches before the first. This holds for every mix of the forms v, v/vt, v//vn and v/vt/vn in one face, of v and v/vt in one line, and for any number of references.",
["inputs"],"all reference lists: any length, any mix of forms, any 32-bit index incl. negative and zero",
"Tests use at most four references with small positive indices in four fixed mixes.",
[MO,TO],[("slash-separated reference parsing",MO+" parse_face, parse_line, parse_point")],API)
p("C10","Elements are filed under exactly the current groups",
"Every face, line and point appears exactly once under each group named by the latest group statement before it (under \"default\" before any group statement or after one without names), in file order, and under no other group; re-entering a group appends to it. Every group that was ever named, and \"default\", has a group entry, every group holding an element has one too, and no others exist.",
["inputs","histories"],"all sequences of group statements (one or several names, repeats, re-entry, no names) interleaved with elements",
"The tests file faces under the default group only; group switching, several names and re-entry are never exercised end to end.",
[MO],[("current group list",MO+" parse (fold)"),("group statement",MO+" parse_group")],API,None,["current group list","faces/lines/points/groups maps"])
p("C11","Each face carries the smoothing group in effect",
"Every face records the smoothing group set by the latest s statement before it in the file, 0 before any such statement or after \"s off\" or \"s 0\", regardless of group, material or object statements in between and in every group the face is filed under. A later s statement never changes faces already read.",
["inputs","histories"],"all interleavings of smoothing, group, material and face statements",
"No test combines a smoothing statement with a face.",
[MO],[("current smoothing group",MO+" parse (fold), parse_smoothing")],API,None,["current smoothing group"])
p("C12","Group attributes reach exactly the current groups",
"usemtl, usemap, bevel, c_interp, d_interp and lod set the corresponding attribute of every group that is current at that point and of no other group; the latest such statement for a group wins, attributes never set keep their defaults, \"usemap off\" removes the texture map, and re-entering a group keeps the attributes it has. Setting one attribute never affects another.",
["inputs","histories"],"all interleavings of attribute and group statements over a small set of group names, with re-entry and several current groups",
"The tests set one material on the default group; overwriting, several groups, re-entry and the other five attributes are not exercised.",
[MO],[("attribute updates of the current groups",MO+" parse (fold)")],API,None,["groups map"])
p("C13","Libraries and auxiliary objects are all recorded",
"The material and texture library lists contain every name given by every mtllib and maplib statement respectively, each name separately, in file order with repeats kept; shadow and trace object hold the name from the latest shadow_obj and trace_obj statement, and are absent if there is none. No other statement affects them.",
["inputs"],"all sequences of mtllib, maplib, shadow_obj and trace_obj statements with one or more names, among other statements",
"One test has one mtllib with one name; several statements, several names and the other three statements are untested.",
[MO,TO],[("library lists and auxiliary names",MO+" parse (fold), parse_mat_lib, parse_texture_lib, parse_shadow_obj, parse_trace_obj")],API)
p("C14","OBJ layout does not change the result",
"Rewriting an OBJ text without changing its statements does not change the result: any indentation, any non-empty run of blanks or tabs between words, trailing blanks, blank lines, LF or CRLF line ends, a missing final newline, upper or lower case statement keywords and on/off arguments, whole-line comments with any content and trailing comments set off by a blank. (Blanks inside a name that keeps them are part of the name.)",
["inputs"],"all layouts of all files",
"Each test has one layout; equality between layouts is a relation over pairs of inputs that no test compares.",
[TO,TOK],[("whitespace, comment and keyword recognition",TO+" parse_obj, kw_map")],API)
p("C15","OBJ statements compose",
"Loading the concatenation of OBJ texts gives the same result as processing their statements one after another: data read earlier is never changed by what follows. Moving v, vn, vt, vp, o, mtllib, maplib, shadow_obj and trace_obj statements relative to statements of any other kind, or deleting all statements of one of those kinds, changes nothing in the rest of the result (v, vn and vt only in a text without negative references).",
["inputs","histories"],"all pairs (prefix, continuation) of files and all kind-preserving reorderings",
"Tests compare one file in two fixed orders; composition is a relation over all splits and permutations.",
[MO],[("statement-by-statement fold",MO+" parse")],API)
p("C16","Materials and the statements that belong to them",
"An MTL load yields exactly one material per newmtl statement, in file order, with the written name (duplicates kept), and every other statement affects only the material of the latest newmtl before it; a property never mentioned for a material is absent. A file whose first statement is not newmtl is rejected with the error for a missing new material, whatever follows.",
["inputs","histories"],"all sequences of materials and attribute statements, including empty materials, duplicate names and leading attributes",
"Every MTL test has exactly one material, and none starts without newmtl.",
[MA],[("attribute goes to the last material",MA+" parse")],API)
p("C17","Colours keep their kind, values and defaults",
"Ka, Kd, Ks, Ke and Tf each set their own colour of the current material, as RGB with the written components, as a spectral curve with the written file name and factor (1.0 when omitted), or as CIE XYZ with the written components (y and z each equal to x when omitted). They never set or disturb any other property.",
["inputs"],"all five statements x all three kinds x all argument counts and values, repeated and interleaved",
"Tests cover RGB and spectral for some statements; no test loads an xyz colour or Tf.",
[MA,TM],[("colour forms",MA+" parse_color_type and its five callers")],API)
p("C18","Scalar material properties are exact and separate",
"Ns, Ni, Tr, sharpness, d (plain or -halo), illum and map_aat each set exactly their own property of the current material to the written value, with d distinguishing plain alpha from halo; illum accepts any non-negative integer and rejects a negative one. They never set or disturb any other property.",
["inputs"],"all seven statements with all values, repeated and interleaved",
"Tests never load Tr, sharpness, -halo or map_aat, and never repeat a statement.",
[MA,TM],[("scalar statements",MA+" parse_specular_exponent ... parse_anti_alias_map")],API)
p("C19","Texture map options land where they belong",
"Each map statement (map_Ka, map_Kd, map_Ks, map_Ns, map_d, disp/map_disp, decal, bump, refl) sets its own map of the current material with the written file name and with every given option (-blendu, -blendv, -cc, -clamp, -mm, -o, -s, -t, -texres, and -imfchan, -bm or -type where the map has them) holding exactly the written values, in any option order and before or after the file name; omitted options and omitted trailing components of -o, -s and -t are absent, -boost is accepted and not recorded, and options a kind of map does not have are ignored.",
["inputs"],"all nine maps x all subsets, orders and argument counts of options",
"Options are tested only as token lists in isolation, and end to end in five fixed combinations.",
[MA,TM],[("option parsing",MA+" parse_options and parse_option_*"),("option to field",MA+" ColorCorrectedMap::new, NonColorCorrectedMap::new, BumpMap::new, ReflectionMap::new")],API)
p("C20","MTL layout and statement order do not change the result",
"Rewriting an MTL text without changing its statements (indentation, runs of blanks or tabs between words, trailing blanks, blank lines, LF or CRLF, missing final newline, keyword, option and on/off case, whole-line and trailing comments) does not change the result. Within one material, exchanging statements for different properties changes nothing, and of several statements for the same property the last one counts completely; concatenating two MTL texts gives their materials one after the other.",
["inputs","histories"],"all layouts, all permutations within a material, all concatenations",
"Each test has one layout and one order; these are relations over pairs of inputs.",
[TM,MA],[("whitespace, comment and keyword recognition",TM+" parse_mtl, kw_map"),("last statement wins",MA+" set_from_material_element")],API)
p("C21","Names and file names are kept verbatim",
"Material, group, library, texture map, shadow and trace object names and file names appear in the result exactly as written: any characters other than whitespace (any script, punctuation, path separators, leading digits, dots or signs, inner '#', or text that spells a number or a keyword), case preserved; usemtl, usemap, shadow_obj and trace_obj also keep inner blanks. For texture map and spectral file names a name that as a whole spells a number or an MTL keyword or option is outside this guarantee, and no name starts with '#'.",
["inputs"],"all names, in every statement that takes one",
"Tests use a handful of plain ASCII names; names are arbitrary text that collides with numbers, keywords, slashes and comments.",
[TO,TM,MO,MA,LIB],[("name tokens",TO+" parse_obj, "+TM+" parse_mtl"),("token to string",LIB+" get_token_string")],API)
p("C22","Public value types convert without loss",
"For every public vertex, normal, texture coordinate, face and line element, face, line, point and group type, building it from its components, from a tuple or by naming fields gives equal values, converting it back to a tuple returns the same components in the documented order, copies and clones are equal and independent, and equality (also of whole models and materials) distinguishes any two values that differ in any component. The default model is empty, with one default-valued group named \"default\".",
["inputs"],"all component values",
"The tests build these values only by naming fields, and only compare equal ones.",
[MO],[("derived constructors and conversions",MO+" struct definitions"),("default model",MO+" impl Default for Model")],["public constructors, From/Into conversions, PartialEq"])
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
