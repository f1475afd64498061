"""rewrite MANIFEST.json (development helper)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXACT = ("runtime monitoring: answers observed on generated boards, judged by an independent reference model",
            "Every answer set observed on thousands of generated boards is compared, as a set, with an exhaustive enumeration by an "
            "independently written rule model (complete for small boards, windowed for larger). Trusts the reference rules.")
CLAIMED = {i: EXACT for i in ("C01", "C02", "C03", "C04", "C05", "C06")}
CLAIMED["C07"] = (
    "runtime monitoring: metamorphic monitor over recorded answer sets",
    "For boards of every type all answers are recorded, then marks are added one after another; each observed answer set must be "
    "exactly the recorded answers that agree with the marks. Small boards, up to 160 answers; trusts the reading of answer links.")
CLAIMED["C08"] = (
    "runtime monitoring: decoder monitor against an independent reader, and metamorphic monitor over storage variants",
    "Decoded puzzle objects are compared element by element with an independent reading of the link on boards of all sizes; answers "
    "to generated and shipped boards are compared with those to the same picture stored differently.")
CLAIMED["C09"] = (
    "runtime monitoring: every observed answer link is taken apart by an independent reader",
    "Answer links of generated and shipped boards and of synthetic models are compared part by part with the problem link and the "
    "answer; each link is solved again and must give itself back.")
CLAIMED["C10"] = (
    "runtime monitoring: answer lists observed under several limits, judged by length, distinctness and an independent enumeration",
    "Length, distinctness and completeness of every observed answer list under limits 1 to 60, with one and several threads.")
CLAIMED["C11"] = (
    "runtime monitoring: recorded request histories replayed in fresh processes",
    "Every reply in random histories over all types (with refused, damaged, failing and timed-out requests in between) is compared "
    "with the reply of a process that has answered nothing else.")
CLAIMED["C23"] = (
    "runtime monitoring: observed room divisions against an independent union-find, metamorphic monitor over drawings that enclose nothing",
    "Divisions of thousands of random border sets up to 45 x 45, called alone and hooked inside real solves, and the answers of boards "
    "of all 41 room types with and without crosses, frames, outside borders and loose ends.")
CLAIMED["C12"] = (
    "runtime monitoring: the real server under hostile concurrent traffic, every response judged against a direct call",
    "About 1800 requests per run (well-formed, refused, damaged and senseless bodies) from eight clients with misbehaving clients in "
    "between, and a second server with a one-second limit. Trusts uvicorn's framing; bodies slower than four seconds are left out.")
CLAIMED["C13"] = (
    "runtime monitoring: search time line recorded by hooks under the solving library, with injected delays, judged against every reply",
    "Easy, long-list, medium and hard boards under limits around the time they need, with delays before, during and after the search and "
    "one to four threads. Trusts the finish and interruption flags of the solving library; preparing the program is not interrupted.")
CLAIMED["C14"] = (
    "runtime monitoring: outcomes of boards spoilt in one place, judged against a reviewed list of what each type cannot interpret",
    "About 70 kinds of spoiling on boards of 129 types, 2000 pairs of type and kind; every one must be refused with a message that "
    "explains, and the boards before must be accepted. The list (nx/refusals.json) was drawn up by trial and reviewed.")
CLAIMED["C15"] = (
    "runtime monitoring: metamorphic monitor, answers of boards laid down in all eight ways",
    "Shipped boards, the same with pieces taken away, and random boards of all rule sets are solved as drawn and turned or mirrored, with "
    "their directions turned along; answer sets must be the turned ones. Trusts a table of which symbols point where.")
CLAIMED["C16"] = (
    "runtime monitoring: the deployed bundle and the server run side by side, every program, link and message compared",
    "Programs, answer links, refusals and metadata of both builds for boards of every type, with the page's own in-browser solving "
    "script. Native clingo stands in for clingo-wasm and a stub for pyodide's conversions.")
CLAIMED["C17"] = (
    "runtime monitoring: bundles and source trees recorded after every step of random histories of builds, server starts, edits and kills",
    "Builds and starts in scratch copies, interrupted at random points and over leftovers; bundle contents, listing, metadata, start-up "
    "without the server's packages and the source tree are compared after each step.")
CLAIMED["C18"] = (
    "runtime monitoring: the listing judged entry by entry, the page and every example and option value observed in use",
    "Every type, alias, example and option of the metadata; the real page in both builds with everything chosen once; every shipped "
    "board solved; boards solved with every option value. Links that need the editor's own importer are judged by form only.")
RULES = ("runtime monitoring: models of rule programs observed over whole small spaces and lists of larger drawings, judged by plain definitions",
         "Thousands of programs from the real builders with random arguments; all drawings of small grids and chosen drawings of grids up "
         "to 9 x 9. Trusts the solving library to find exactly the models of a program.")
for i in ("C19", "C20", "C21", "C22"):
    CLAIMED[i] = RULES
CLAIMED["C24"] = (
    "runtime monitoring: the real page script in a scripted browser, a model of its state checked after every action",
    "Random sequences of page actions and server replies (late, failing, garbled, out of order). The browser, the editor and the dialogs "
    "are stand-ins that record what the script does.")
ids = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
man = {
    "version": 1,
    "setup_cmd": "python3 -B tools/setup.py",
    "checks": [{"property": i, "quick_cmd": "python3 -B run.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 -B run.py " + i,
                "evidence_file": "evidence/%s.json" % i, "technique": CLAIMED[i][0], "level": "exploration",
                "level_note": CLAIMED[i][1]} for i in ids if i in CLAIMED],
    "not_applicable": [{"property": i, "reason": "check under construction"} for i in ids if i not in CLAIMED],
    "notes": "No hooks are added to the repository: the monitors wrap its functions from outside.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
