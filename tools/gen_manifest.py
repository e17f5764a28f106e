"""Writes /verif/MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

MODEL = "stateful model-based property testing (Hypothesis): generated operation histories against a reference model"
CHAOS = "; generated histories with storage and network failing anywhere and nobody retrying, invariants over the history"
TECHNIQUES = {
    "C01": MODEL + CHAOS,
    "C05": MODEL + CHAOS,
    "C18": MODEL + CHAOS,
    "C03": MODEL + "; generated conversations between several session managers (symbolic and real backends) with delay,"
           " reordering, loss, repetition; round-trip oracle",
    "C12": MODEL + "; generated first starts with scarce device ids" + CHAOS,
    "C13": "generated histories with enumerated fault injection; metamorphic oracle: interrupted and repeated equals clean" + CHAOS,
    "C17": "generated timelines in virtual time (asyncio and Twisted) with failing uploads; timing invariants",
    "C19": "generated operation sequences against a dictionary; generated schedules checked as an atomic register",
    "C20": "generated values and types; round-trip and type oracle",
    "C21": "generated keys and faulty histories; differential against an independent curve implementation",
    "C22": "generated parameters against the documented condition",
    "C25": "generated operations of several tasks and generated schedules; metamorphic: overlapping equals one after another",
    "C28": "generated histories; metamorphic: with and without restarts, with and without cache",
    "C27": "generated states, every interaction failing in turn; metamorphic: repeated equals without failure",
    "C26": "generated states and operations, every interaction failing in turn; oracle: table of documented outcomes",
    "C29": "stateful property testing (Hypothesis): generated histories; oracle: the traffic each call may need, given what"
           " was known before",
    "C24": MODEL + "; metamorphic: containers changed after the call",
}
NOTES = {
    "C13": "Every interaction of the operation with storage and network is a failure point (sampled above 48 per state);"
           " the states before are sampled.",
    "C26": "Every interaction of the operation with storage, network and application is a failure point (sampled above 40"
           " per state); the states before are sampled.",
    "C27": "Every interaction of the operation with storage, network and application is a failure point (sampled above 30"
           " per state); the states before are sampled, a second failure too.",
    "C28": "Sampled histories of up to 30 operations (60 thorough), about every third preceded by a restart.",
    "C03": "Sampled conversations of up to five devices.",
    "C17": "Sampled timelines; virtual time, so years are covered in milliseconds.",
    "C25": "Sampled schedules of up to four tasks; the point of change is any access to storage, network or backend.",
    "C19": "Sampled sequences and schedules over two to five keys.",
}
DEFAULT_NOTE = "Sampled histories (up to 40 operations, 80 in the thorough tier) over three backends, three accounts and" \
    " four devices each; every observable result compared after every operation."

with open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8") as f:
    ids = [json.loads(line)["id"] for line in f]

manifest = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python check.py --selftest",
    "checks": [
        {
            "property": i,
            "quick_cmd": f"/opt/venv/bin/python check.py {i} --tier quick",
            "thorough_cmd": f"/opt/venv/bin/python check.py {i} --tier thorough",
            "technique": TECHNIQUES.get(i, MODEL),
            "level": "fault_enumeration" if i in ("C13", "C26", "C27") else "exploration",
            "level_note": NOTES.get(i, DEFAULT_NOTE if i not in ("C20", "C21", "C22") else "Sampled inputs, edges preferred.")
        } for i in ids
    ],
    "not_applicable": []
}
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
