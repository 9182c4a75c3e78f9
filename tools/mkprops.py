#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the lines stay uniform)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Decoding never crashes or hangs",
  "For every byte sequence delivered by any reader, decoding returns after finitely many steps with exactly one of a calendar or an error, and never panics. This holds for truncated components at any nesting depth, malformed values of every type, and empty or odd-length parameter lists.",
  ["inputs", "fault_sequences"], "all byte sequences, all ways the reader chunks or fails",
  "Tests decode a handful of well formed or mildly broken documents; a panic needs one specific malformed value at one of some 300 value positions, and a hang needs a specific chunk boundary.",
  ["decoder.go", "unfolder.go", "tokeniser.go", "sections.go", "sections_alarm.go", "properties.go", "params.go", "types.go"],
  [("component decoders", "sections.go: every decode method, decodeDummy"), ("alarm dispatch", "sections_alarm.go: Alarm.decode"), ("value decoders", "types.go"), ("unfolding", "unfolder.go: unfolder.Read"), ("tokenising", "tokeniser.go")],
  ["Decode"])
p("C02", "Encoding never crashes or hangs",
  "For every calendar value, valid or not, whose alarm entries are either unset or point at an alarm, encoding returns after finitely many steps with nil or an error and never panics.",
  ["inputs"], "all calendar values reachable through the exported fields",
  "Tests encode a few fixed calendars; a crash or endless loop needs one special character or one unset field in one of several hundred fields.",
  ["encoder.go", "folder.go", "sections.go", "sections_alarm.go", "properties.go", "params.go", "types.go"],
  [("component encoders and validators", "sections.go, sections_alarm.go"), ("parameter escaping", "params.go: encode6868"), ("value encoders", "types.go")],
  ["Encode"])
p("C03", "Output lines are folded to 75 octets without losing or splitting anything",
  "In everything the encoder writes, no physical line is longer than 75 octets excluding its line break, a fold is never placed inside a multi-byte character, and deleting the inserted folds gives back exactly the unfolded text. This holds however the text is cut into successive writes.",
  ["inputs", "histories"], "all texts, all sequences of writes that do not cut a character",
  "The folding test has a few short ASCII and multi-byte strings in one write each; a fault needs a particular column, character width and write boundary together.",
  ["folder.go", "encoder.go"],
  [("fold state machine", "folder.go: folder.Write"), ("column carried between writes", "folder.go: folder.line")],
  ["Encode output", "bytes reaching the underlying writer"], ["current column"])
p("C04", "Unfolding is exact and independent of how the reader delivers data",
  "What the decoder sees is the input with every CR LF SPACE removed and every other byte kept in order. The result of decoding depends only on the bytes of the input, never on how the reader splits them into reads or whether end of input is reported together with the last bytes.",
  ["inputs", "schedules"], "all inputs, all partitions of the input into reads, all destination buffer sizes",
  "The unfolding test reads a few strings with one buffer size; folds straddling a read boundary, folds at the end of a chunk and stale buffer contents need a particular alignment.",
  ["unfolder.go", "decoder.go"],
  [("fold removal across reads", "unfolder.go: unfolder.Read"), ("held-back bytes", "unfolder.go: unfolder.buf")],
  ["Decode", "bytes returned by the unfolding reader"], ["bytes held back between reads"])
p("C05", "Write failures surface, and nothing is written after one or for bad data",
  "If the destination writer fails at any point, encoding returns that first error and makes no further write, so what reached the destination is a prefix of the fault-free output. A calendar that fails validation is reported with an error and causes no write at all; encoding returns nil only if every byte was handed over without error.",
  ["fault_sequences", "inputs"], "all calendars, every write call that can fail, full or partial",
  "No test uses a failing writer; there is one fault point per write call.",
  ["encoder.go", "folder.go"],
  [("sticky error", "folder.go: folder.err"), ("validate first", "encoder.go: Encode")],
  ["Encode result", "write calls seen by the destination"], ["first error"])
p("C06", "Text values survive escaping and unescaping",
  "Every text free of control characters, alone or in a list, is written with backslash, comma, semicolon and line break escaped and reads back as the same text with list elements kept apart (bytes that are not valid UTF-8 become the replacement character). Reading undoes exactly the defined escapes and rejects an unescaped semicolon, or an unescaped comma in a single text.",
  ["inputs"], "all texts and lists of texts",
  "Tests cover a few strings; interaction of adjacent escapes, escapes at either end and multi-byte characters is unbounded.",
  ["types.go"],
  [("escaping", "types.go: Text.encode, MText.encode"), ("unescaping", "types.go: decodeText, Text.decode, MText.decode")],
  ["Encode", "Decode"])
p("C07", "Parameter values survive quoting and caret escaping",
  "Every valid UTF-8 parameter string free of control characters is written quoted whenever it holds a quote, comma, colon or semicolon, with quote, caret and line break caret-escaped, and reads back as the same string. Parameters that must be quoted are always written quoted, and reading rejects an unquoted form of them; any other caret sequence is left as it is.",
  ["inputs"], "all parameter strings, all parameters",
  "No test has a caret, quote or line break in a parameter; each parameter has its own copy of the code.",
  ["params.go", "genParams.sh", "params.gen"],
  [("caret escaping", "params.go: encode6868, decode6868"), ("quoting", "params.go: each encode/decode method")],
  ["Encode", "Decode"])
p("C08", "Scalar values round-trip exactly",
  "Every valid boolean, integer, float, coordinate pair, duration, UTC offset, date, date-time, time, period, binary and URI value is written in its iCalendar form and reads back as the same value (times to the second, in UTC, local time or a named zone). Values that cannot be represented are rejected by validation instead of being written as something else, and malformed text is rejected on reading.",
  ["inputs"], "all values of the scalar types, all value texts",
  "Tests sample a few values per type; the numeric ranges, sign and unit combinations are not enumerable.",
  ["types.go"],
  [("scalar encode/decode/valid", "types.go"), ("decimal digits", "types.go: itoa"), ("zone name", "types.go: writeTimezone")],
  ["Encode", "Decode"])
p("C09", "Recurrence rules are range-checked and round-trip",
  "A recurrence rule is accepted on reading, and accepted for writing, only if its frequency is known, every listed second, minute, hour, day, week, month and position lies in its permitted range, and it does not carry both an end date and a count. Every rule accepted for writing is written with all its parts and reads back equal, with list orders kept.",
  ["inputs"], "all recurrence rules, all rule texts",
  "Tests cover some fifty rules; each of a dozen parts has its own bounds and its own copy of the loop.",
  ["types.go"],
  [("rule parsing", "types.go: Recur.decode"), ("rule output", "types.go: Recur.encode"), ("rule checks", "types.go: Recur.valid")],
  ["Encode", "Decode"])
p("C10", "Enumerated values map one to one to their keywords",
  "Each enumerated property or parameter value is written as its own registered keyword and that keyword, in any letter case, reads back as the same value. An unknown keyword becomes the designated unknown value where there is one and an error otherwise, and an out-of-range value is rejected by validation where there is no unknown value.",
  ["inputs"], "all enumerated types, all their values, all keyword texts",
  "Tests use one or two keywords of a few enumerations; there are some sixty keywords.",
  ["properties.go", "params.go"],
  [("keyword tables", "properties.go, params.go: encode/decode/valid of enumerations")],
  ["Encode", "Decode"])
p("C11", "Property parameters are matched by name, once each, for any order and mix",
  "For every property and every list of parameters, each known parameter is recognised whatever its letter case and position and stored in its own field, a repeated known parameter is an error, and unknown parameters change nothing. The value type parameter selects exactly the named alternative, its absence selects the default one, and an unknown or repeated value type is an error.",
  ["inputs"], "all properties, all parameter lists",
  "Tests use zero to two parameters on a few properties; order, repetition and multi-valued parameters multiply over some sixty separately written decoders.",
  ["properties.go"],
  [("parameter loop", "properties.go: each decode method"), ("value type selection", "properties.go: each decode method")],
  ["Decode"])
p("C12", "Every populated field is written once and read back into the same field",
  "For every valid calendar of valid UTF-8 strings, each populated property, parameter, alternative value and nested component is written exactly once under its registered name inside its own component, absent ones are not written, and list order is kept. Decoding that output yields an equal calendar.",
  ["inputs"], "all valid calendars",
  "Tests set few of the roughly 200 component fields and rarely read back what was written; a mix-up affects only calendars using that one field.",
  ["sections.go", "properties.go", "params.go", "sections.gen", "properties.gen"],
  [("component encode/decode", "sections.go"), ("property encode/decode", "properties.go")],
  ["Encode then Decode", "Encode output"])
p("C13", "Component rules on required, repeated and related properties are enforced",
  "Reading a component fails unless each required property occurs exactly once, each optional single property at most once, and the rules linking properties hold (mutually exclusive, requires the other, both or neither, at least one); any number and order of lines that satisfy the rules is accepted. Encoding rejects a calendar that breaks a linking rule.",
  ["inputs", "histories"], "all sequences of content lines in a component, all calendars",
  "Tests break a handful of rules; the rules span twelve components and depend on the whole sequence of lines.",
  ["sections.go", "sections.gen", "genSections.sh"],
  [("required flags and multiplicity", "sections.go: each decode method"), ("linking rules", "sections.go: each decode and valid method")],
  ["Decode", "Encode"])
p("C14", "Unknown content is skipped without trace and names ignore case",
  "Adding any well formed property that is not known in its place, or outside alarms any such component with arbitrarily nested contents, leaves the decoded result unchanged. Property, component and parameter names are recognised in any letter case, and a component must be closed by its own name or the input is rejected.",
  ["inputs"], "all calendars, all unknown components and properties, all letter cases",
  "Tests contain no unknown components; nesting depth and contents are unbounded.",
  ["sections.go", "sections_alarm.go", "decoder.go"],
  [("skipping", "sections.go: decodeDummy and the default cases"), ("end matching", "sections.go: END cases")],
  ["Decode"])
p("C15", "Alarms are decoded and encoded according to their action",
  "An alarm is read as the kind its single action line names, wherever among its lines that action appears, with all its other lines interpreted for that kind; an alarm without exactly one recognised action is an error. Each kind of alarm is written with its own action and reads back as the same kind, and an unset alarm is rejected before anything is written.",
  ["inputs", "histories"], "all alarm components, all orders of their lines, all alarm values",
  "Tests have a few alarms with the action in one position; five kinds times all line orders cannot be listed.",
  ["sections_alarm.go", "sections.go"],
  [("two-pass dispatch", "sections_alarm.go: Alarm.decode"), ("replayed lines", "sections_alarm.go: psuedoTokeniser.GetPhrase"), ("action line", "sections_alarm.go: Alarm.encode, Alarm.valid")],
  ["Decode", "Encode"])
p("C16", "Encoding accepts a calendar exactly when every nested value is valid",
  "Encoding fails if any property, parameter or value at any depth, at any list position, is invalid for its type, and succeeds when all of them are valid and the component rules hold. A property with alternative value types is valid only if exactly one alternative is set.",
  ["inputs"], "all calendars, all positions of an invalid value",
  "Tests validate a few values in isolation; a skipped check hides behind one of several hundred field positions.",
  ["sections.go", "sections_alarm.go", "properties.go", "params.go", "types.go"],
  [("validation tree", "every valid method")],
  ["Encode result"])
p("C17", "Content lines are split by the grammar and nothing else is accepted",
  "In UTF-8 input, a logical line NAME(;PARAM=value(,value)*)*:value ended by CR LF or end of input is split into exactly its name, its parameters with their quoted or unquoted values in order, and its value, for every choice of permitted characters. Any line outside that grammar, such as a control character, an unbalanced quote, a missing name or a bare line break, makes decoding fail.",
  ["inputs"], "all UTF-8 inputs",
  "The tokeniser test has about a dozen lines; which character is allowed in which position is a table of 256 bytes by six positions.",
  ["tokeniser.go"],
  [("token functions", "tokeniser.go: parseName, parseParamName, parseParamValue, parseValue"), ("line assembly", "tokeniser.go: phrase")],
  ["Decode"])
p("C18", "No value can inject or break a content line",
  "Whatever strings, URIs and zone names a calendar accepted by the encoder contains, the output is a well formed sequence of content lines: each property produces exactly one logical line, and no value can end its line, its parameter or its quotes, or start a new property or component. Control characters other than tab, and line breaks in escaped form, never reach the output except as line ends.",
  ["inputs"], "all calendars",
  "Needs hostile strings in every single field; tests use friendly ones.",
  ["types.go", "params.go", "properties.go"],
  [("escaping and quoting", "types.go, params.go encode methods"), ("rejecting what cannot be escaped", "types.go, params.go valid methods")],
  ["Encode output"])
p("C19", "Encoding does not modify the calendar and is repeatable",
  "Encoding, whether it succeeds or fails, leaves every value reachable from the calendar unchanged. Encoding an unchanged calendar again gives byte-identical output.",
  ["inputs", "histories"], "all calendars, any number of encodings",
  "Tests never compare a calendar before and after encoding; a write hides in one of some 250 methods.",
  ["encoder.go", "sections.go", "sections_alarm.go", "properties.go", "params.go", "types.go"],
  [("read-only encoders and validators", "every encode, aencode and valid method")],
  ["Encode output", "calendar contents after Encode"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
