#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one entry for every property with a check."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    "C01": "every indexing, dereference, conversion, loop and recursion reached by Decode proved safe and terminating for all inputs, down to the assumed contracts of bufio and of GetPhrase of the parser package; the other functions of that package which take part are proved to keep their contracts",
    "C02": "every indexing, dereference, conversion, loop and recursion reached by Encode proved safe and terminating for all calendars",
    "C03": "folder.Write and folder.WriteString proved to write exactly the specified folding of any text from any column, and Encode to hand the text of the calendar through it; lemmas prove of that folding that no line is longer than 75 octets, that no character is split, that unfolding gives the text back and that folding in parts is folding the whole",
    "C04": "unfolder.Read proved to return exactly the unfolding of what its reader delivers, for every buffer size and every state of the buffered reader, and Decode to read through it; a lemma proves that unfolding undoes folding",
    "C05": "folder.Write, folder.WriteString and Encode proved for a writer which may fail at every write: the failure is kept and returned, nothing is written after it, invalid calendars cause no write",
    "C06": "Text.decode, Text.encode, Text.valid, the same for lists, and decodeText proved equal to the specification for all inputs; lemmas prove that what is written for a text, or for a list of texts, reads back as it was",
    "C07": "encode6868, decode6868 and decode, encode and valid of every parameter type proved equal to the specification for all inputs; lemmas prove that the caret escapes of RFC 6868 read back as written; the functions which split a line into its parameters are proved with them",
    "C08": "decode, encode and valid of every scalar type, and of properties which write a zone, an encoding or a value type with one, proved equal to the specification for all inputs; formatting and parsing of times, numbers, base64 and URLs rests on assumed contracts of the standard library",
    "C09": "Recur.decode, Recur.encode, Recur.valid and those of the property holding a rule proved equal to the specification for all inputs",
    "C10": "decode, encode and valid of every enumerated parameter and property proved equal to their keyword tables for all inputs",
    "C11": "decode, encode and valid of every property proved equal to the specification for all parameter lists and values",
    "C12": "decode and encode of every component, alarm, property, parameter and value type proved equal to the specification, in which every field has its own line, for all inputs; Encode and Decode proved to write and read it through folding and lines",
    "C13": "decode, encode and valid of the calendar, of every component and of every alarm proved equal to the specification with its occurrence and linking rules for all sequences of content lines",
    "C14": "decode of the calendar, of every component and alarm and the skipping of unknown components, Decode and the parameters of every property proved equal to the specification for all sequences of content lines",
    "C15": "decode, encode and valid of every kind of alarm, of their properties and of events and to-dos holding them proved equal to the specification for all inputs",
    "C16": "Encode proved to write only after validation, and valid of every type to report an error exactly when the specification says so, for all values",
    "C17": "every token function and the line function proved equal to the grammar for all texts, and Decode to read its lines through them; the functions of the parser package by which they read are proved to keep their contracts on UTF-8 text",
    "C18": "every encoder proved to write exactly the specified text and only for valid calendars, and every specified text proved, part by part, to keep to its place in its own content line, for all values",
    "C19": "no function reached by encoding stores to memory it did not allocate, proved for every path of Encode, the folder and every encode and valid function",
}
PROP_TECH = "contract-based deductive verification of the Go source (symbolic execution of its SSA form, invariant inference, z3)"
checks = []
for pid in sorted(NOTES):
    checks.append({
        "property": pid,
        "quick_cmd": f"bash /verif/check.sh {pid}",
        "thorough_cmd": f"bash /verif/check.sh {pid}",
        "evidence_file": f"evidence/{pid}.json",
        "technique": PROP_TECH,
        "level": "proof",
        "level_note": NOTES[pid],
    })
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": checks, "not_applicable": []}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
