#!/usr/bin/env python3
# Writes /verif/MANIFEST.json for the properties of properties.jsonl.
import json
T={
"C01":"property-based differential testing against encoding/json, structured type and document generators, shrinking",
"C02":"property-based differential testing of verdicts against encoding/json with planted faults",
"C03":"mutation fuzzing of generated documents against encoding/json.Valid, in crash-isolated workers",
"C04":"property-based differential testing with random prefilled destinations against encoding/json",
"C05":"stateful property-based testing: decode histories against fresh decoders",
"C06":"metamorphic property-based testing: []byte versus string input",
"C07":"property-based testing on write-protected input, overwritten afterwards",
"C08":"model-based property testing: reference model of the first fault in document order",
"C09":"property-based testing against arbitrary precision arithmetic",
"C10":"property-based testing against strconv, bit by bit",
"C11":"round-trip property testing: generated text, random escaping, decoded text",
"C12":"model-based and differential property testing of field selection under all options",
"C13":"metamorphic property testing: insertion of unknown members",
"C14":"property-based testing against the document and encoding/json, with later map operations",
"C15":"property-based differential testing over recursive types and deep documents",
"C16":"model-based property testing of recorded unmarshaler calls",
"C17":"model-based and differential property testing of quoted scalars",
"C18":"property-based testing with guard words, canaries, guard pages and GC stress",
"C19":"metamorphic property testing over decoder construction and tokenizer sizes",
"C20":"metamorphic property testing: reformatted, re-escaped and permuted documents",
"C21":"property-based testing of random concurrent schedules under the race detector",
"C22":"property-based testing of any destinations with random previous contents",
"C23":"property-based testing over generated supported and unsupported types",
"C24":"property-based testing of slices and arrays over lengths, capacities and contents",
"C26":"mutation fuzzing into random prefilled destinations, compared bit by bit with what they were",
"C27":"stateful property-based testing with finalizers on tracked inputs and destinations",
"C28":"stateful model-based property testing with panicking, allocating and re-entrant unmarshalers",
"C29":"property-based testing of the memory decoded strings refer to",
"C30":"metamorphic property testing: processor time and memory of generated documents against those 16 times as long",
"C31":"stateful property-based testing of the objects allocated by repeated decodes",
"C32":"metamorphic and differential property testing of destinations after failed decodes",
"C33":"round-trip property testing: random values written by encoding/json",
"C34":"property-based, differential and model-based testing of a 32-bit build run in place",
"C35":"stateful property-based testing of memory regions and of the effects of overwriting decoded values",
"C25":"property-based testing of pointers and null with pointer identities",
}
checks=[]
for l in open("/verif/properties.jsonl"):
    p=json.loads(l); i=p["id"]
    note=("Generated-input search over about 1100 destination types (further ones are generated by the thorough command) in 8 worker processes; "
     "finds violations with the probability the generators give them, proves nothing. Trusts encoding/json, strconv, math/big and reflect of Go 1.21, the generators and the small model in harness/jg; linux/amd64 only.")
    if i=="C21": note="Random schedules of up to 6 goroutines under the Go race detector; sampled interleavings only. Trusts the race detector and that a sequential run of the same steps is the right answer."
    if i=="C34": note=note.replace("linux/amd64 only","linux/386 as executed by the kernel of the sandbox; other 32-bit platforms are represented by it")
    checks.append(dict(property=i,quick_cmd=f"./run.sh {i} quick",thorough_cmd=f"./run.sh {i} thorough",evidence_file=f"evidence/{i}.json",technique=T[i],level="exploration",level_note=note))
json.dump(dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=[],notes="No hooks: the harness uses the public API only. Known and fixed findings: known_findings.json. Design: DESIGN.md."),open("/verif/MANIFEST.json","w"),indent=1)
