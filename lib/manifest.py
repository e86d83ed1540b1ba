#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = "TLA+ specification evaluated by TLC as the oracle of recorded executions"
NOTE = ("Every recorded execution of the real library is judged by TLC against an independent TLA+ definition; inputs are sampled (boundaries and seeded random), not exhausted. "
        "Trusts the executor's translation of values and TLC.")
C = {
    "C01": ("exploration", LIB + " (spec/Codec.tla, LibCases.tla)", NOTE),
    "C02": ("exploration", LIB + " (spec/Codec.tla, LibCases.tla)", NOTE),
    "C03": ("exploration", "TLA+ reader and writers of the format: TLC writes encodings replayed into the code, and reads the code's own (spec/Codec.tla, WriterCases.tla)", NOTE),
    "C04": ("exploration", LIB + "; outcomes, memory and position of damaged encodings", NOTE + " Memory is bounded by 2 MB plus 70 kB per input byte."),
    "C05": ("exploration", LIB + " (spec/Blob.tla)", NOTE),
    "C06": ("exploration", LIB + " (spec/Text.tla: trees, optimal cost)", NOTE),
    "C07": ("model_checking", "TLA+ state machine (spec/BitList.tla) explored exhaustively by TLC; every step replayed into the code, recorded histories judged by TLC", "Exhaustive up to the length bound of the model, sampled beyond it. Trusts the executor and TLC."),
    "C08": ("model_checking", "TLA+ state machine (spec/CursorM.tla) explored exhaustively by TLC; every step replayed into the code, recorded histories judged by TLC", "Exhaustive for the sizes of the model with boundary offsets, sampled beyond it. Trusts the executor and TLC."),
    "C09": ("exploration", LIB + " (spec/Nums.tla)", NOTE),
    "C10": ("exploration", LIB + " (spec/Nums.tla)", NOTE),
    "C11": ("exploration", LIB + " (equality and hashing)", NOTE),
    "C12": ("exploration", LIB + " (spec/Floats.tla: exact floats, fixed-point trigonometry)", NOTE),
    "C13": ("exploration", LIB + " (spec/JsonImage.tla)", NOTE),
    "C14": ("exploration", LIB + " (spec/JsonImage.tla)", NOTE),
    "C15": ("exploration", LIB + " (kinds and accessors)", NOTE),
    "C16": ("exploration", LIB + " (spec/Show.tla: a reader of printed values)", NOTE + " Inside tables only characters one column wide."),
    "C17": ("exploration", LIB + " (spec/Codec.tla, LibCases.tla: handlers)", NOTE + " Handlers are called as axum calls them, without a network."),
}
SIM = "TLA+ specification of the daemon (spec/Daemon.tla, DaemonTrace.tla): TLC decides whether recorded lives of the daemon's own sources under a scheduler are behaviours of it"
DNOTE = ("The daemon's own sources are compiled against stand-ins of tokio, moka and axum::serve whose scheduling, time and file outcomes are chosen by seed; every recorded life is judged by TLC. "
         "Schedules and histories are sampled (few-request cases exhaustively in the thorough tier). Trusts the stand-ins, the file interposer and TLC.")
for p, l in dict(D01="model_checking", D02="model_checking", D03="model_checking", D04="exploration", D05="model_checking", D06="fault_enumeration", D07="model_checking", D08="model_checking",
                 D09="fault_enumeration", D10="exploration", D11="model_checking", D12="model_checking", D13="fault_enumeration").items():
    C[p] = (l, SIM, DNOTE)
C["K01"] = ("exploration", "TLA+ specification of the clients (spec/Clients.tla over Daemon.tla and Codec.tla): TLC judges recorded requests, reports and histories of both clients",
            "Every call is judged by TLC: the request that reached a recording server, what the client reported of a prepared answer, and histories against the real daemon. Inputs are sampled. Trusts the recording server and TLC.")
C["K02"] = ("exploration", "TLA+ specification of the tool's dialogues (spec/Mouse.tla over Daemon.tla and JsonImage.tla): TLC judges recorded runs at a terminal",
            "The real binary runs at a pseudo-terminal against the real daemon; TLC judges the databases before and after, the exit code, the prompts answered and the file written. Inputs are sampled. Trusts the terminal stand-in and TLC.")
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
m = {"version": 1, "setup_cmd": "bin/setup",
     "checks": [{"property": p, "quick_cmd": f"bin/check {p}", "thorough_cmd": f"bin/check {p}", "evidence_file": f"evidence/{p}.json", "technique": t, "level": l, "level_note": n} for p, (l, t, n) in C.items()],
     "not_applicable": [{"property": p, "reason": NA.get(p, "not claimed yet: its check is being built")} for p in ids if p not in C],
     "notes": "See DESIGN.md. No hooks in /repo: the library is driven through its public interface, the daemon's own sources are compiled against recording stand-ins of its dependencies and also run as they are."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
