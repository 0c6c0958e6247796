"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "mc"))
import run, core

ROUND = ("Exhaustive within the stated bounds: every history with at most D deviations from the scripted play of each world is generated by an independent "
         "reference model of the rules, written as a log, converted by the real code and compared at every decision point. Trusts the reference model "
         "(checked against the mahjong library's yaku evaluation) and the choice of worlds; histories outside the bounds are not covered.")
ROWS = ("Exhaustive over the same kind of bounded histories: the real converter and the real tensor processors of all four families, every row compared. "
        "Trusts the reference model; output slots of calls come from the code (their distinctness is C03).")
NOTES = {
    "C01": "Complete: all 65536 codes. Trusts the reference decoding of Tenhou's meld format.",
    "C02": "Complete over all pairs of valid codes, all descriptions of calls.",
    "C03": "Complete over all valid codes and over all choices one player can have at one decision.",
    "C11": ROUND + " Every cut of every history is converted again; the full records are compared byte for byte.",
    "C12": "Exhaustive over orders, pairs and triples of a pool of rounds and files (including rejected and malformed ones) in one process; a bounded pool stands for all files.",
    "C13": "Complete over all rule codes of the flag bits, and over a pool of header variants.",
    "C14": "Exhaustive over all hands in normal form up to the stated bounds against an independent shanten computation; larger spaces in the thorough tier.",
    "C15": "Exhaustive over directories of up to a few files of each kind and all batch sizes up to the bound, with stand-in and real conversion; two passes each.",
    "C16": ROWS, "C17": ROWS + " Independence of hidden tiles is checked on renamings of them (one or two per history).", "C18": ROWS,
    "C19": "Exhaustive over small batches and over every ordered subsample; two fixed weightings per model stand for all weights, float32 on the CPU.",
    "C20": "Exhaustive over all event tokens at all positions; two fixed random weightings per model stand for all weights.",
    "C21": "Exhaustive over the stated directory contents and over every crash point of the real save code (with torn writes, nested crashes). Process crashes only, no loss of power.",
    "C22": "Exhaustive over the stated schedules with the real script and loader and recording stand-in networks; each real network runs two iterations.",
    "C24": "Exhaustive over the stated folder contents; the real script runs twice on each as an unprivileged user.",
    "C26": "Exhaustive over all ordered pairs of a pool of rows and large batches around each; two fixed weightings per model, float32 on the CPU.",
    "C27": "Exhaustive over all single changes of a row and all pairs of them, for one row per head (thorough: three); distinctness under fixed weightings shows that generic weights distinguish them.",
    "C28": "Exhaustive over all weight tensors; one direction each (with a component along the gradient), central differences in double precision, one fixed weighting.",
    "C29": "Exhaustive over the listed variations and their pairs on a pool of logs; the XML library decides what is well formed.",
    "C30": "Exhaustive over the step counter up to the stated bound (thorough: the whole schedule) and over small distributions of steps; stand-in networks of nine weights, and each real network for five iterations. torch's AdamW is the reference.",
    "C31": "Exhaustive over the checkpoints of the first iterations of all nine models and the listed ways to load them; a pool of rows stands for all rows.",
    "C32": "Exhaustive for two threads with one switch at every line (quick: its first two and last executions), two switches at calls; switches inside library calls are not explored.",
    "C33": "Exhaustive over sequences of up to two commands of the stated alphabet; the real script runs in processes forked after the imports, on empty data directories.",
    "C34": "Exhaustive over the damage points of three short logs and every 29th byte (thorough: every byte) of a whole-length game; damage that leaves well-formed XML is outside the claim.",
    "C35": "Exhaustive over the stated sizes and outputs per batch; stand-in networks give known losses.",
    "C36": "Exhaustive over the single edits of a pool of explored rounds (quick: exchanges up to three events apart and a part of the calls of other kinds; thorough: all).",
    "C37": "Exhaustive over the histories of the listed worlds; quick: the 14 symmetries one by one for sweeps and three generating ones for longer play, thorough: all 47. Two mistakes that are each other's image cancel out.",
    "C25": "Exhaustive over the stated pages and answers; the real script runs with a stand-in for the requests library.",
}

if __name__ == "__main__":
    run.load()
    checks = []
    for pid, (f, level, tech) in sorted(core.CHECKS.items()):
        checks.append(dict(property=pid, quick_cmd="python3 run.py %s" % pid, thorough_cmd="python3 run.py %s thorough" % pid,
                           evidence_file="evidence/%s.json" % pid, technique="model checking: " + tech, level=level, level_note=NOTES.get(pid, ROUND)))
    m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=[],
             notes="No hooks in /repo. Known and repaired defects: known-findings.txt. Method, bounds and planted bugs: DESIGN.md.")
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")
    print(len(checks))
