#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json
T="abstract interpretation of the SSA form (inclusion and widening at loop heads, no execution)"
CW="abstract interpretation of the connection (SSA form, to a fixpoint over every call history, fault and server answer)"
CWN="Covers every history of calls on a connection and its transactions with a fault possible at every transport operation, for each protocol version, against a server model that answers in order; log calls are treated as effect-free."
CF="abstract interpretation of the client, its drivers and pools from the options to the dial (go/ssa), unknown strings as templates"
CFN="Covers direct, pooled and routed drivers with unknown host, port, credentials and file names in every combination of TLS settings; trusts the models of net/url, crypto/tls and the object pool library."
PW="exploration of every call history of the routing pool by abstract interpretation (SSA form), to a fixpoint of canonical states"
PWN="Covers a directly used and a pooled routed driver with 2 and 3 connections, two cluster members in any roles, every failure of dial, check, rollback, close and overview, and one goroutine turn at a time; larger clusters and pools are not covered."
CLAIMED={
 "C01":(T+": abstract bytes of every encoder outcome re-read as PackStream","Covers every accepted Go type for both encoders with symbolic values and lengths; trusts the models of bytes.Buffer, encoding/binary and reflect."),
 "C02":(T+": every marker byte with symbolic fields against the PackStream table","Covers every marker for both decoders with symbolic fields and sizes; nested values are summarised by induction on the recursion; message reassembly is decided for one and two chunks."),
 "C03":(T+": reachability of run-time panics, unchecked allocations, lost errors and unbounded recursion on unknown input","Covers every marker followed by unknown, possibly missing bytes, for both decoders; trusts the models of bytes.Buffer and encoding/binary."),
 "C04":(T+": typestate of the transport (chunk header / payload / end marker)","Covers every message length and, for strings and scalars, every chunk size; list, map and structure messages with the default chunk size."),
 "C05":(T+": every value of every decodable type through the same version's encoder, compared with what the decoder reads","Covers every type the decoders can return with symbolic fields; trusts the models of reflect, time and gotime (their field accessors are opaque terms)."),
 "C06":(T+": encoded structure of every request constructor against the Bolt request tables","Covers protocol versions 1 to 4 with symbolic arguments; the choice of arguments by the connection is covered by C08 and C11."),
 "C07":(T+": every answer of the server to the handshake, for every byte length","Covers the handshake for every server answer, and the protocol chosen; trusts the model of net.Conn."),
 "C08":(CW+": request/reply typestate",CWN),
 "C09":(CW+": identity and order of records",CWN),
 "C10":(CW+": transaction typestate",CWN),
 "C11":(CW+": arguments of every statement sent inside a transaction",CWN),
 "C12":(CW+": error provenance",CWN),
 "C13":(CW+": lock typestate of the connection",CWN),
 "C14":(CW+": every path through Close reaches the transport close",CWN),
 "C15":(CF+": the TLS configuration that reaches the dial",CFN),
 "C16":(CF+": string templates followed through every escaping and unescaping step",CFN),
 "C17":(CW+": a deadline set before every blocking call of the transport",CWN),
 "C18":(T+": every accessor on every metadata shape","Covers all result accessors on metadata of every decodable type."),
 "C19":(PW+": locks held at every access of shared state, lock typestate",PWN),
 "C20":(PW+": ownership and liveness of every connection",PWN),
 "C21":(PW+": role of every connection handed out, target lists after every refresh",PWN),
 "C22":("exploration of every call history of the connection pool by abstract interpretation (SSA form), the pool library modelled, to a fixpoint of canonical states","Covers the plain pool with 1 to 3 connections and the routed one with 2, every failure of open, check, rollback and close, every sequence of open, reclaim and close; trusts the model of the object pool library."),
 "C23":("points-to and taint analysis of the whole module (call-string cloning), reference scan of everything reachable from the exported API, abstract interpretation of the log functions per level","Credentials are followed from the three exported entry points through fields, errors, formatting and closures to every logger call, whatever the level, except the raw-byte trace dump; implicit flows and data other modules keep are not followed."),
 "C24":(CF+": every option followed to the place where it has to arrive",CFN),
}
NA={
 "C25":"equality of instants and durations after a round trip quantifies over calendar arithmetic done inside the time and gotime libraries; their results are opaque to a static argument here",
 "C26":"liveness: eventual service and refresh timing depend on the scheduler and on run-time durations, no static argument in reach bounds them",
}
ids=["C%02d"%i for i in range(1,27)]
checks=[]
for i in ids:
    if i in CLAIMED:
        t,n=CLAIMED[i]
        checks.append(dict(property=i,quick_cmd="./check.sh "+i,thorough_cmd=("env VERIF_TIER=thorough ./check.sh " if t.startswith(PW) else "./check.sh ")+i,technique=t,level="other",level_note=n))
na=[dict(property=i,reason=NA.get(i,"check under construction")) for i in ids if i not in CLAIMED]
json.dump(dict(version=1,setup_cmd="./check.sh setup",checks=checks,not_applicable=na),open("/verif/MANIFEST.json","w"),indent=1)
