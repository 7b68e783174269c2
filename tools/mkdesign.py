#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from DESIGN.in.md, the texts below and the planted bugs."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
D = {
"C01": "Enumerates both constructors x offset widths x timestamp kinds x other flags x boundary sessions and offsets x payload lengths (0, 1, widths, MTU), fresh and dirty frame values. Oracle: an independent encoder of the wire layout (table in `rt/checks/h`), field-by-field comparison after decode, re-use of every buffer. A test samples one flag string; the bugs sit in the other widths, in empty payloads and in aliasing.",
"C02": "As C01 with all hole lists up to length 3 over boundary bounds, error codes, timestamp by both spellings, and re-use of a status value that holds other holes.",
"C03": "All free space settings and widths, free space at each width boundary through a stand-in for statfs (also failing), identities over all byte classes and lengths, both constructors.",
"C04": "All names and authentication strings up to a length over byte classes, all request flags, both constructors, re-used values.",
"C05": "All entry header fields, sizes and times at the width boundaries, checksum kinds and lengths (right and wrong), names; entries that cannot be encoded inside metadata.",
"C06": "All types x instants at every boundary of every type (32 and 64 bit seconds, nanoseconds, before and after 2000), all ordered pairs of types on a re-used value, wire bytes against an independent encoder.",
"C07": "All 256 timestamp and all 65536 directory headers, and for the 32 bit header each value of each flag against backgrounds of zeros, ones and each value of each other flag; all undefined names and values. Oracle: masks computed from the documented layout.",
"C08": "All operation sequences (add, replace, look up) to a depth over a flag alphabet, against an ordered map; all assignments of global flags for every frame type.",
"C09": "All 2^n sets of received cells as states, every addition as a transition, so it covers arrival sequences of any length within the space; storage layouts with spare capacity; also large offsets.",
"C10": "All sequences of reads, writes and re-opens to a depth at boundary positions (contents that differ, agree or are zero) against an array of bytes; sizes up to 33 MB; all small contents for each checksum kind against the standard library; failing files.",
"C11": "All names of a grammar of up to 3-4 components ('.', '..', empty, absolute, sub-directory, link) x all operations. The file shim records every path handed to the system and refuses anything outside the scratch directory; the whole tree is compared before and after.",
"C12": "Every kind of directory entry (files of several sizes, directories, links to each, dangling links, fifos, sockets, devices, missing) x checksum kinds x modes, modification times before and after 2000.",
"C13": "All sequences of beacons heard from several peers to a depth, against a table keyed by address.",
"C14": "All byte strings up to two bytes, all header words built from field products x every length x contents, every truncation and corruption; each decoded in four surroundings (exact, followed by two kinds of bytes, into a used value) whose results must agree.",
"C15": "The real main program runs under the scheduler with injected sockets. All datagram sequences to a depth over an alphabet of valid, malformed, foreign and odd-sized frames; observed are the values passed over the program's channels.",
"C16": "All requests (type x flags x version x willingness x file state), and all histories of requests to a depth from several peers and sessions, against a model of admission; directory compared before and after.",
"C17": "The main program under all schedules up to a preemption bound: deadlock, death, unanswered requests, unregistered peers and transfers.",
"C18": "All operation sequences (start, look up, change, remove) to a depth over peers, sessions, directions and files, against a model registry.",
"C19": "All interleavings (preemption bound) of pairs and triples of operations; outcome compared with the set of outcomes of all sequential orders, computed by running them.",
"C20": "Hole counts around every page boundary for every width, MTU and timestamp setting; datagrams captured by the socket shim.",
"C21": "All command lines of a grammar and all sequences to a depth, against a model of the settings.",
"C22": "All single-field changes, omissions and type corruptions of the shipped configuration, against the JSON text read independently; all single-field changes after a copy.",
"C23": "All token sequences to a depth and structured IPv4/IPv6 texts, against net/netip; all address lists to a length.",
"C24": "A receiver and a sender built from the real data, status, holes and file code; all deliveries (loss, duplication, order) of each round for files up to a size, with contents that tell every byte apart, end in zeros or are all the same, and frames that arrive after the next round has begun.",
"C25": "The real beacon command under the scheduler's clock; datagrams and their times captured.",
"C26": "Every frame decoded from independently built bytes is shown; each value is looked for behind its label, flags by name. The listing commands run on real tables and their output is taken apart by columns; texts are followed to their windows through the stand-in for the terminal, and on to the cells of its screen; windows are cleared between texts by the real command.",
"C27": "The real main runs against stand-ins for sockets, interface, file system statistics and terminal that record every request and can refuse each of them. For each combination of settings and refusals the requests made, the message at the end and the state of the terminal are compared with what the settings ask for; the ends of the program are explored under the scheduler.",
"C28": "Keys go through the key bindings and the editor of the terminal library to the real handlers. A model of a command line, written from the statement, is told the same keys; after each of them the lines of the window, the cursor, the window in use and the effects of the commands run are compared. In one scenario keys are pressed while the commands of earlier lines still run: the operations of the terminal library are scheduling points there, and all schedules up to two preemptions are run. Not claimed: what is typed before the new prompt is shown, a terminal with fewer than 16 rows or 80 columns, and the level with which the program ends after exit 1.",
}
import re
def bounds(id):
    src = open(f"{root}/rt/checks/{id.lower()}/main.go").read()
    out = []
    for m in re.finditer(r'\{Name: "([^"]+)", Bounds: (?:fmt\.Sprintf\()?"((?:[^"\\\\]|\\\\.)*)"(.*)', src):
        if m.group(2): out.append(f"{m.group(1)}" + (" (thorough)" if "Thorough: true" in m.group(3) else "") + ": " + m.group(2).replace('%d', 'all'))
    return "; ".join(out)
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
man = json.load(open(root + "/MANIFEST.json"))
na = {x["property"]: x["reason"] for x in man.get("not_applicable", [])}
ps = ["## Properties", ""]
for p in props:
    ps.append(f"* **{p['id']} {p['title']}.** {D[p['id']]} *Scenarios:* {bounds(p['id'])}." + (f" *Not claimed: {na[p['id']]}.*" if p["id"] in na else ""))
results = {}
rp = here + "/seed_results.json"
if os.path.exists(rp): results = json.load(open(rp))
ss = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
sd = root + "/seeded"
for id in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(f"{sd}/{id}/meta.json"))
    ss.append(f"| {id} | {m['property']} | {m['needs']} | {results.get(id, '?')} |")
t = open(here + "/DESIGN.in.md").read().replace("@PROPS@", "\n".join(ps)).replace("@SEEDS@", "\n".join(ss))
open(root + "/DESIGN.md", "w").write(t)
