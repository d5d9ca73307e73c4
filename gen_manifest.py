#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks below."""
import json

MON = "runtime monitoring: "
CLAIMED = {
    "C01": (MON + "round-trip oracle over generated values, frames and mutated messages",
            "Randomised; every value type, performative and section, nesting to depth 4. Trusts the harness's hand-written field mapping (conv.rs), which C03 and C06 cross-check against independently encoded bytes."),
    "C02": (MON + "size oracle on every encode, with messages measured between mutations",
            "Randomised; compares encoded_size() and the frame header with the bytes really emitted, debug assertions and overflow checks on."),
    "C03": (MON + "independent AMQP 1.0 decoder (wire.rs, schema.rs) judging emitted bytes",
            "Randomised; the oracle decoder and field tables are transcribed from the specification and share nothing with the crate."),
    "C04": (MON + "panic trap, allocation accounting, CPU watchdog and process-death supervision over hostile inputs",
            "Randomised mutation and constructed bombs; memory bound 4 MiB + 512x input; a case may burn 20 s of CPU time."),
    "C05": (MON + "independent framing model checked online at every chunk",
            "Randomised chunkings, limits and hostile declared sizes; frame contents compared through the value model."),
    "C06": (MON + "independent encoder choosing random legal encodings, decoded value compared field by field",
            "Randomised over every constructor choice; one recorded finding (described filter values) stays pinned to its exact input."),
    "C07": (MON + "value/message model and comparison with the public fields after every accessor call and mutation",
            "Randomised values, pairs of values, performatives with random subsets of fields and sequences of message mutations; pairs holding arrays, described values or floats are exempt from the equal/unequal judgement."),
    "N01": (MON + "handshake automaton over the exact emitted token sequence, scripted deviations and cuts, real client against real server, real-time stalls",
            "Randomised scripts: plain and SASL, challenge, outcome codes, refusals at each point, one deviation or cut per script, all chunkings; stalls beyond a 1 s time-out in real time."),
    "N04": (MON + "frame-time monitor over many connections watched in real time",
            "Randomised batches: plain and SASL clients and servers, announced time-outs from 300 ms, keep-alive 0..4 s, peers that talk, fall silent or split frames, stuck control services, application closing. Time counts by the observer's own loop so that machine load cannot fake a violation."),
    "N02": (MON + 'size oracle on every emitted frame',
            'Randomised histories: random conforming peer and random application around one real endpoint; every frame judged online by an independent wire monitor, API results by an offline model; small frame sizes, boundary bodies, long tags and long error texts.'),
    "N03": (MON + 'channel map model',
            'Randomised histories: random conforming peer and random application around one real endpoint; every frame judged online by an independent wire monitor, API results by an offline model; channel-max 0..5 and churn of sessions from both sides with different numbers per direction; own announced maximum limits only sessions the endpoint begins itself.'),
    "R01": (MON + "dispatch ledger joining handler invocations with the links and messages a scripted peer sent",
            "Randomised histories over a fixed table of six pattern groups: gated, slow and failing handler factories, readiness and outcomes; multi-frame, aborted and pre-settled messages; detach, session end and local close."),
    "S01": (MON + 'link-credit model per link, order and progress of waiting sends',
            'Randomised histories: random conforming peer and random application around one real endpoint; every frame judged online by an independent wire monitor, API results by an offline model; credit grants, reductions, stale flows, cancelled sends, counter wrap-around; one event loop, so interleavings are schedules of peer bytes and API calls.'),
    "S02": (MON + 'session window model over all links',
            'Randomised histories: random conforming peer and random application around one real endpoint; every frame judged online by an independent wire monitor, API results by an offline model; windows of 0..5 frames, missing next-incoming-id, wrap-around.'),
    "S03": (MON + 'receiver credit model, peer also transfers beyond all credit',
            'Randomised histories: random conforming peer and random application around one real endpoint; every frame judged online by an independent wire monitor, API results by an offline model; grants, replenishment, multi-frame and aborted deliveries, initial delivery-count near wrap-around.'),
    "S04": (MON + 'exactly-once, in-order and byte-identity check in both directions',
            'Randomised histories: random conforming peer and random application around one real endpoint; every frame judged online by an independent wire monitor, API results by an offline model; each message carries its operation number; sizes to 20 000 bytes, chunked transport, interleaved links.'),
    "S05": (MON + 'outcome ledger per delivery-id in both directions',
            'Randomised histories: random conforming peer and random application around one real endpoint; every frame judged online by an independent wire monitor, API results by an offline model; ranges, repetitions, crossing settlements, all outcomes with errors.'),
    "S06": (MON + 'delivery well-formedness automaton over emitted transfers',
            'Randomised histories: random conforming peer and random application around one real endpoint; every frame judged online by an independent wire monitor, API results by an offline model; ids near wrap-around, small frames, cancelled sends, settled and unsettled.'),
    "S07": (MON + 'completion check of every pending operation after each ending, at quiescence',
            'Randomised histories: random conforming peer and random application around one real endpoint; every frame judged online by an independent wire monitor, API results by an offline model; peer or application detaches, ends, closes, transport loss; late operations started afterwards.'),
    "S08": (MON + 'differential: violations seen among several links and sessions and never with a single one, plus cause analysis of every failure',
            'Randomised histories: random conforming peer and random application around one real endpoint; every frame judged online by an independent wire monitor, API results by an offline model; reused handles, names and channels.'),
    "S09": (MON + 'closing-handshake automaton per handle, channel and connection',
            'Randomised histories: random conforming peer and random application around one real endpoint; every frame judged online by an independent wire monitor, API results by an offline model; crossing closings, late settlements, slow control service.'),
    "S10": (MON + "panic trap, CPU and memory bounds per burst, responsiveness probe and completion check of pending operations under a hostile peer",
            "Randomised hostile frames (plausible, odd, garbage) and a careless application on top of random conforming histories; a third of the histories stays mild enough to survive to the probe."),
    "S11": (MON + 'size limits of both sides compared with what was sent, refused and delivered',
            'Randomised histories: random conforming peer and random application around one real endpoint; every frame judged online by an independent wire monitor, API results by an offline model; limits from 1 byte, sizes at the limit and one beyond, split over transfers.'),
    "S12": (MON + 'condition and description compared end to end in both directions',
            'Randomised histories: random conforming peer and random application around one real endpoint; every frame judged online by an independent wire monitor, API results by an offline model; detach, end, close, rejections, control-service and message-handler failures, refused links.'),
    "E01": (MON + 'control-service call log compared with the sequence of peer frames',
            'Randomised histories: random conforming peer and random application around one real endpoint; every frame judged online by an independent wire monitor, API results by an offline model; slow control service (gate), bursts, reused names; sequences of names with local interference are only checked for local events.'),
    "E02": (MON + 'instrumented services (readiness, concurrency, shutdown counted) compared with the wire',
            'Randomised histories: random conforming peer and random application around one real endpoint whose services are unready for random spans, take one call at a time, or fail their readiness check; input held back is probed with echo requests; all other monitors stay on.'),
    "A01": (MON + 'builder arguments compared with the Begin/Attach on the wire, accessors and lookups compared with the wire history',
            'Randomised histories: random conforming peer and random application around one real endpoint with schema-generated field values; lookups of every live and of unused handles and names at every point of rest.'),
}
NA = {}
ALL = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "checks": [
        {
            "property": p,
            "quick_cmd": f"./check.sh {p} quick",
            "thorough_cmd": f"./check.sh {p} thorough",
            "technique": CLAIMED[p][0],
            "level": "exploration",
            "level_note": CLAIMED[p][1],
        }
        for p in ALL
        if p in CLAIMED
    ],
    "not_applicable": [
        {"property": p, "reason": NA.get(p, "check under construction")} for p in ALL if p not in CLAIMED
    ],
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
