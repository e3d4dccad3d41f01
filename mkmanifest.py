#!/usr/bin/env python3
# Regenerates MANIFEST.json from the table below.
import json
T={
"C01":("end-to-end trace monitor: a ledger of uniquely numbered messages over two real objects joined by a lossy, chunking simulated network","Random workloads in both directions with transport losses at arbitrary byte positions, half-delivered frames, session losses of one side and reconnections until everything is at rest."),
"C02":("differential round-trip monitor over the public builders and parsers, overflow- and panic-instrumented build, five small-buffer feature variants","Random, boundary and rule-breaking packets plus sweeps over every small length; coverage is what the generators reach, not all packets."),
"C03":("differential monitor against an independently written reference codec","Random and boundary field values per packet kind and identifier width; all reason codes, connect flags and subscription options."),
"C04":("parser totality monitor (panic, overflow, hang and allocation watch) with acceptance oracle","All bodies of up to two bytes for each parser, then mutated, structured and random bodies."),
"C18":("online comparison of builder and parser decisions with the specification's property table","Every property x packet x {1,2} occurrences x boundary values (all 256 values of byte properties), then random lists."),
"C05":("panic, overflow, hang and memory watch over a connection under hostile byte streams, plus an online reference monitor of what becomes of every received packet","Random histories: raw bytes, mutated packets, well-formed packets of a misbehaving peer, in every connection state; then a new connection must open."),
"C06":("online reference monitor of the outbound QoS 1/2 exchanges over random connection histories","Every accepted PUBLISH/PUBREL is tracked through sends, stored exports, acknowledgements, closes and resumes of the real object."),
"C07":("online reference monitor of the inbound QoS 2 exchanges over random histories, and a two-object restore differential","Duplicates, PUBREL, error PUBREC, reconnections, new sessions and export/restore of the handled identifiers."),
"C08":("online monitor with an independent ledger of packet identifiers and owners","Random histories over the small identifiers plus exhaustion runs with all 65535 identifiers in use."),
"C09":("differential monitor: one byte stream fed to several real objects in different partitions, and an independent framer","Random streams, single-byte, packet-straddling and merged chunks, frames with one to four length bytes, overlong lengths."),
"C10":("differential monitor: a reused object beside a freshly constructed one, and an online reference monitor","Random pasts including closes in the middle of a frame or handshake; after the new session starts both objects get the same inputs and must answer identically."),
"C11":("matrix monitor over role x version x state x packet kind, a refused-send-is-void differential, and a compile-time probe of checked_send","The matrix is enumerated with random packet contents; the differential runs refused sends against an object that never saw them."),
"C12":("online flow-control monitor: in-flight set and vacancy recomputed independently after every call","Random v5.0 histories with small Receive Maximum values in both directions, resumes with stored packets."),
"C13":("online monitor resolving every sent and received topic alias as a specification-conformant receiver would","Random v5.0 histories with manual, automatic and replaced aliases, small Topic Alias Maximum values, reconnections."),
"C14":("online monitor of the size of every packet requested for sending or delivered","Random v5.0 histories with small Maximum Packet Size values announced by either side."),
"C15":("online timer monitor: armed set and intervals recomputed independently after every call","Random histories over keep-alive sources, overrides, expiries, closes and local calls in all states."),
"C16":("differential monitor: export taken at a random point, restored into a fresh object that is then driven beside the original","Random histories of persistent sessions, both roles, crash points in any connection state, up to three restores in a row."),
"C17":("matrix monitor over received packet kinds, adoption differential (undetermined server beside one of the adopted version), online reference monitor","The matrix is enumerated with random packet contents; adoption is compared over whole histories."),
"C19":("online monitor of the order of events in every returned list","Random histories; every list is checked for packets after a close request and for a close after DISCONNECT, refusing CONNACK and keep-alive expiry."),
"C20":("online differential monitor against a plain set of free integers","Random operation sequences over seven integer types and random ranges; all sequences of up to six operations on small ranges."),
}
NA=[]
import os
order=[f"C{i:02d}" for i in range(1,21)]
checks=[]
for i in order:
    if i in T:
        t,n=T[i]
        checks.append({"property":i,"quick_cmd":f"./check.sh {i}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {i}","technique":"runtime monitoring: "+t,"level":"exploration","level_note":n})
    else:
        NA.append({"property":i,"reason":"check under construction"})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":NA}
json.dump(m,open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"MANIFEST.json"),"w"),indent=1)
