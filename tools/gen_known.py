#!/usr/bin/env python3
"""Writes known_findings.json: the open findings, and the repaired ones from /repo's fix commits."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = [
 {"id": "crlf-newline-takes-three-characters", "properties": ["P07", "P09"],
  "what": "a CRLF line break that is a newline token or newline trivia (not one in a literal or a continuation) is taken as three characters: the character behind it is lost",
  "input": "a\\r\\nb", "where": "src/parser/tokenizer.rs, get_symbol, the '\\r','\\n' arm of the newline handling",
  "why_not_repaired": "about 28 existing tests pin the three-character span of a CRLF newline at the end of their text"},
 {"id": "deep-nesting-overflows-the-stack", "properties": ["P01"],
  "what": "an expression nested 200000 parentheses deep overflows the 8 MB main stack and kills the process",
  "input": "'(' * 200000 + 'a' + ')' * 200000", "where": "src/parser/expressions.rs, recursive descent without a depth limit",
  "why_not_repaired": "needs a depth limit (which depth to allow is a design decision) or a parser that does not recurse"},
]
PROPS = {
 "e6cb162": "P04", "9a06e3c": "P04", "b555bce": "P08", "37b0d1d": "P08", "4bd740c": "P07", "ea3a5a2": "P15", "7eb3ca8": "P05", "69b1322": "P05", "ff004d6": "P07", "e1e1e31": "P09",
 "721e5a9": "P12", "9ab83f3": "P12", "965d92c": "P12", "804b8cd": "P12", "27024e3": "P14", "59d019e": "P13", "0be35ff": "P16", "f64eb64": "P12", "4029c40": "P12", "bd8b73f": "P12", "a42008c": "P01",
 "d27406f": "P13", "e0d4abb": "P13", "16a29ff": "P14", "618d7a7": "P14", "2144eb0": "P14", "18c39cb": "P14", "51e55c1": "P01", "3a4926a": "P14", "81fc064": "P15", "1fd640d": "P22", "864c872": "P22",
 "e598ba7": "P26", "a92eaae": "P26", "28a41d9": "P18", "9e76bca": "P23", "0b91444": "P08", "f27045d": "P15", "07cd91f": "P12", "355c8eb": "P12", "b4b7c8d": "P12"}
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', 'ebd72af..HEAD'], capture_output=True, text=True).stdout.strip().split('\n')
fixed = []
for l in log:
    h, s = l.split(' ', 1)
    if s.startswith('fix: '):
        fixed.append(f"fixed: property={PROPS[h]} {h} {s[5:]}")
json.dump({"known": KNOWN, "fixed": fixed}, open(os.path.join(here, 'known_findings.json'), 'w'), indent=1, ensure_ascii=False)
print(len(fixed))
